"""C09: error estimates through the functions and the class."""
import numpy as np
import gen
import vf

NUMS, NUMP = [3, 20, 61, 120, 1000], [0.1, 0.5, 0.3, 0.09, 0.01]


def rp_event(rng):
    from petrofit.petrosian.core import calculate_petrosian_r

    n = int(rng.integers(4, 14))
    kind = gen.kind(rng, n)
    r, p = gen.radii(rng, n, 2 if kind in gen.STEP_KINDS else None), gen.profile(rng, n)
    perr = gen.errors(rng, p) if rng.random() < 0.9 else None
    if perr is not None and rng.random() < 0.4:
        perr[0] = np.nan
    if rng.random() < 0.4:
        p[0] = np.nan
    eta = float(rng.choice([0.2, 0.5, 0.8, rng.uniform(0.05, 1)]))
    kw = dict(eta=eta, interp_kind=kind, interp_num=int(rng.choice(NUMS, p=NUMP)))
    before = [vf.digest(x) for x in (r, p, perr)]
    out = vf.call(lambda: calculate_petrosian_r(r, p, petrosian_err=perr, **kw))
    plain = vf.call(lambda: calculate_petrosian_r(r, p, **kw)[0])
    return {"op": "rp", "r": vf.enc(r), "p": vf.enc(p), "perr": vf.enc(perr), "eta": vf.num(eta), "kind": vf.enc(kind),
            "num": kw["interp_num"], "out": out, "plain": plain["v"], "before": before,
            "after": [vf.digest(x) for x in (r, p, perr)]}


def fr_event(rng):
    from petrofit.petrosian.core import fraction_to_r

    n = int(rng.integers(4, 14))
    kind = gen.kind(rng, n)
    r, _, f = gen.cog_for(rng, n, kind)
    ferr = gen.errors(rng, f) if rng.random() < 0.92 else None
    if rng.random() < 0.1 and kind not in gen.STEP_KINDS:
        r, f, ferr = gen.counts(rng, n)
    rp = float(rng.choice([rng.uniform(r[0], r[-1]), rng.uniform(0, r[-1] * 1.2), np.nan, r[-1] / 2], p=[0.7, 0.15, 0.05, 0.1]))
    rperr = rng.choice([None, 0.0, float(rng.uniform(0, r[-1] / 8)), float(rng.uniform(0, r[-1])), np.nan],
                       p=[0.15, 0.15, 0.45, 0.15, 0.1])
    s = gen.settings(rng)
    f1 = float(rng.choice([0.2, 0.5, 0.8, 0.9, 0.99]))
    kw = dict(epsilon=s["epsilon"], epsilon_fraction=s["epsilon_fraction"], interp_kind=kind,
              interp_num=int(rng.choice(NUMS, p=NUMP)))
    before = [vf.digest(x) for x in (r, f, ferr)]
    out = vf.call(lambda: fraction_to_r(f1, r, f, rp, flux_err=ferr, r_petrosian_err=rperr, **kw))
    plain = vf.call(lambda: fraction_to_r(f1, r, f, rp, **kw)[0])
    return {"op": "frac", "r": vf.enc(r), "f": vf.enc(f), "ferr": vf.enc(ferr), "rp": vf.num(rp), "rperr": vf.enc(rperr),
            "f1": vf.num(f1), "eps": vf.num(s["epsilon"]), "epsf": vf.num(s["epsilon_fraction"]), "kind": vf.enc(kind),
            "num": kw["interp_num"], "out": out, "plain": plain["v"], "before": before,
            "after": [vf.digest(x) for x in (r, f, ferr)]}


def obj_event(rng):
    import petrofit as pf

    n = int(rng.integers(4, 14))
    kind = gen.kind(rng, n)
    r, a, f = gen.cog_for(rng, n, kind)
    ferr = gen.errors(rng, f) * rng.choice([0.1, 0.3, 1]) if rng.random() < 0.85 else None
    aerr = a * rng.uniform(0, 0.02, n) if rng.random() < 0.4 else None
    if rng.random() < 0.1 and kind not in gen.STEP_KINDS:
        r, f, ferr = gen.counts(rng, n)
        a, aerr = gen.narrow(np.asarray(r, dtype=int) ** 2 * 3), gen.narrow(rng.integers(0, 5, n))
    num = int(rng.choice(NUMS, p=NUMP))
    s = gen.settings(rng)
    f1 = float(rng.choice([0.2, 0.5, 0.8, 0.9, 0.99]))
    ins = (r, a, f, ferr, aerr)
    before = [vf.digest(x) for x in ins]
    names = ("r_petrosian", "r_petrosian_err", "r_epsilon", "r_half_light", "r_half_light_err", "r_50_err",
             "r_total_flux", "r_total_flux_err", "total_flux", "total_flux_err", "half_flux", "half_flux_err")
    obs, plain = {}, {}
    ok, o = vf.raw(lambda: pf.Petrosian(r, a, f, area_err=aerr, flux_err=ferr, interp_kind=kind, interp_num=num, **s))
    if not ok:
        obs["init"] = {"ok": 0, "v": "exc", "exc": type(o).__name__}
    else:
        for k in names:
            obs[k] = vf.call(lambda: getattr(o, k))
        obs["p"] = vf.call(lambda: o.petrosian_list)
        obs["perr"] = vf.call(lambda: o.petrosian_err)
        obs["fraction"] = vf.call(lambda: o.fraction_flux_to_r(f1))
        obs["fraction_err"] = vf.call(lambda: o.fraction_flux_to_r_err(f1))
        q = pf.Petrosian(r, a, f, interp_kind=kind, interp_num=num, **s)
        plain = {k: vf.call(lambda: getattr(q, k)) for k in names if not k.endswith("err")}
    return {"op": "obj", "r": vf.enc(r), "f": vf.enc(f), "ferr": vf.enc(ferr), "kind": vf.enc(kind), "num": num,
            "f1": vf.num(f1), "eta": vf.num(s["eta"]), "epsf": vf.num(s["epsilon_fraction"]),
            "tff": vf.num(s["total_flux_fraction"]), "obs": obs, "plain": plain or {"_": 0}, "before": before,
            "after": [vf.digest(x) for x in ins]}


def run(ctx):
    rng = ctx.rng
    ctx.judge("C09", [[rp_event(rng)] for _ in range(ctx.n(500, 5000))], "calculate_petrosian_r errors")
    ctx.judge("C09", [[fr_event(rng)] for _ in range(ctx.n(600, 6000))], "fraction_to_r errors")
    ctx.judge("C09", [[obj_event(rng)] for _ in range(ctx.n(250, 2500))], "error properties of Petrosian objects")
