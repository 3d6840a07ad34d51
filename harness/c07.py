"""C07: fraction-of-light radii through the functions and the class."""
import numpy as np
import gen
import vf

NUMS, NUMP = [3, 20, 61, 120, 5000], [0.1, 0.45, 0.3, 0.14, 0.01]


def fn_event(rng):
    from petrofit.petrosian.core import calculate_concentration_index, fraction_to_r

    n = int(rng.integers(4, 15))
    kind = gen.kind(rng, n)
    r, _, f = gen.cog_for(rng, n, kind)
    if rng.random() < 0.1:  # integer inputs
        r, f = np.arange(1, n + 1), np.cumsum(rng.integers(1, 9, n)) * 5
        kind = rng.choice(["linear", "cubic"])
        if rng.random() < 0.6:
            r, f, _ = gen.counts(rng, n)
    num = int(rng.choice(NUMS, p=NUMP))
    rp = float(rng.choice([rng.uniform(0, r[-1] * 1.3), r[0] / 2, r[-1] / 2, r[-1], np.nan, r[rng.integers(0, n)]],
                          p=[0.5, 0.06, 0.14, 0.06, 0.08, 0.16]))
    if kind in gen.STEP_KINDS and rp in r[1:-1]:
        rp *= 1.013
    s = gen.settings(rng)
    if rp == r[-1] / 2 and rng.random() < 0.5:
        s["epsilon"] = 2.0
    f1, f2 = sorted(rng.choice([0.2, 0.5, 0.8, 0.9, 0.99, 0.02, 1.2], 2, replace=False).tolist())
    if rng.random() < 0.15:
        f1, f2 = f2, f1
    kw = dict(epsilon=s["epsilon"], epsilon_fraction=s["epsilon_fraction"], interp_kind=kind, interp_num=num)
    conv = (lambda v: np.asarray(v).tolist()) if rng.random() < 0.2 else np.array
    a, b = conv(r), conv(f)
    before = [vf.digest(x) for x in (a, b)]
    if rng.random() < 0.6:
        op = "frac"
        out = vf.call(lambda: dict(zip(("r", "e"), fraction_to_r(f1, a, b, rp, **kw))))
    else:
        op = "conc"
        out = vf.call(lambda: calculate_concentration_index(f1, f2, a, b, rp, **kw))
    return {"op": op, "r": vf.enc(r), "f": vf.enc(f), "rp": vf.num(rp), "eps": vf.num(s["epsilon"]),
            "epsf": vf.num(s["epsilon_fraction"]), "kind": vf.enc(kind), "num": num, "f1": vf.num(f1), "f2": vf.num(f2),
            "out": out, "before": before, "after": [vf.digest(x) for x in (a, b)]}


def obj_event(rng):
    import petrofit as pf

    n = int(rng.integers(4, 15))
    kind = gen.kind(rng, n)
    r, a, f = gen.cog_for(rng, n, kind)
    if rng.random() < 0.1 and kind not in gen.STEP_KINDS:
        r, f, _ = gen.counts(rng, n)
        a = gen.narrow(np.asarray(r, dtype=int) ** 2 * 3)
    num = int(rng.choice(NUMS, p=NUMP))
    s = gen.settings(rng)
    f1, f2 = sorted(rng.choice([0.2, 0.5, 0.8, 0.9, 0.99, 0.02], 2, replace=False).tolist())
    before = [vf.digest(x) for x in (r, a, f)]
    ok, o = vf.raw(lambda: pf.Petrosian(r, a, f, interp_kind=kind, interp_num=num, **s))
    obs = {}
    if not ok:
        obs["init"] = {"ok": 0, "v": "exc", "exc": type(o).__name__}
    else:
        for k in ("r_petrosian", "r_epsilon", "r_half_light", "r_50", "r_total_flux", "total_flux",
                  "half_flux", "c2080", "c5090"):
            obs[k] = vf.call(lambda: getattr(o, k))
        obs["r_epsilon_in_range"] = vf.call(lambda: bool(o.r_epsilon_in_range))
        obs["fraction"] = vf.call(lambda: o.fraction_flux_to_r(f1))
        obs["fraction_default"] = vf.call(lambda: o.fraction_flux_to_r())
        obs["conc"] = vf.call(lambda: o.concentration_index(f1, f2))
        for q in (20, 80, 90):
            obs["r_%d" % q] = vf.call(lambda: o.fraction_flux_to_r(q / 100))
    return {"op": "obj", "r": vf.enc(r), "f": vf.enc(f), "kind": vf.enc(kind), "num": num, "f1": vf.num(f1),
            "f2": vf.num(f2), "eps": vf.num(s["epsilon"]), "epsf": vf.num(s["epsilon_fraction"]),
            "tff": vf.num(s["total_flux_fraction"]), "obs": obs, "before": before,
            "after": [vf.digest(x) for x in (r, a, f)]}


def run(ctx):
    tr = [[fn_event(ctx.rng)] for _ in range(ctx.n(900, 8000))]
    ctx.judge("C07", tr, "fraction_to_r and calculate_concentration_index")
    tr = [[obj_event(ctx.rng)] for _ in range(ctx.n(250, 2500))]
    ctx.judge("C07", tr, "every property of Petrosian objects")
