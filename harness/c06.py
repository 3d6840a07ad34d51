"""C06: Petrosian radii of every small profile and of random ones, through the function and the class."""
import numpy as np
import gen
import vf


def event(r, p, perr, eta, kind, num, as_list=False):
    from petrofit.petrosian.core import calculate_petrosian_r

    conv = (lambda v: None if v is None else [x.item() for x in np.asarray(v)]) if as_list else (
        lambda v: None if v is None else np.array(v))
    a, b, c = conv(r), conv(p), conv(perr)
    before = [vf.digest(x) for x in (a, b, c)]

    def run():
        v = calculate_petrosian_r(a, b, petrosian_err=c, eta=eta, interp_kind=kind, interp_num=num)
        return {"rp": v[0], "n": len(v)}

    out = vf.call(run)
    return {"r": vf.enc(r), "p": vf.enc(p), "eta": vf.num(eta), "kind": vf.enc(kind), "num": num, "out": out,
            "before": before, "after": [vf.digest(x) for x in (a, b, c)]}


def object_event(rng):
    import petrofit as pf

    n = int(rng.integers(4, 15))
    r, a, f = gen.cog(rng, n)
    ef = np.abs(f) * rng.uniform(0, 0.05, n) if rng.random() < 0.4 else None
    kind = gen.kind(rng, n)
    num = int(rng.choice([3, 20, 61, 120, 5000], p=[0.1, 0.4, 0.3, 0.15, 0.05]))
    eta = float(rng.choice([0.2, 0.1, 0.35, 0.5, 0.8]))
    before = [vf.digest(x) for x in (r, a, f, ef)]

    def run():
        o = pf.Petrosian(r, a, f, flux_err=ef, eta=eta, interp_kind=kind, interp_num=num)
        return {"rp": o.r_petrosian, "p": o.petrosian_list}

    out = vf.call(run)
    return {"r": vf.enc(r), "p": out["v"]["p"] if out["ok"] else [], "eta": vf.num(eta), "kind": vf.enc(kind),
            "num": num, "out": out, "before": before, "after": [vf.digest(x) for x in (r, a, f, ef)]}


def run(ctx):
    rng = ctx.rng
    den, n = (4, 4) if not ctx.thorough else (4, 5)
    cases = vf.records(ctx.model(
        "PetroModel", "CONSTANTS Den = %d\nLen0 = %d\nKinds = {\"None\", \"linear\", \"cubic\"}\n"
        "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % (den, n),
        what="all profiles with values k/%d at %d radii: monotone in eta, defined, tail-independent, scales" % (den, n)), "CASE")
    tr = []
    for c in cases:
        p = np.array([np.nan] + [x / den for x in c["p"][1:]])
        kind = None if c["kind"] == "None" else c["kind"]
        tr.append([event(np.arange(1.0, n + 1), p, None, (2 * c["eta"] - 1) / (2 * den), kind, 2 * n + 1)])
        if kind is None:  # eta exactly on a value of the profile
            tr.append([event(np.arange(1.0, n + 1), p, None, c["eta"] / den, kind, 2 * n + 1)])
    ctx.judge("C06", tr, "every profile of the model")
    tr = []
    for k in range(ctx.n(700, 6000)):
        m = int(rng.integers(4, 16))
        r, p = gen.radii(rng, m), gen.profile(rng, m)
        if rng.random() < 0.3:
            p = p.copy()
            p[0] = np.nan
        if rng.random() < 0.1:
            r, p = np.arange(1, m + 1), rng.integers(-2, 3, m)  # integer arrays
        kind = gen.kind(rng, m)
        num = int(rng.choice([2, 20, 61, 120, 5000], p=[0.05, 0.45, 0.32, 0.16, 0.02]))
        eta = float(rng.choice([0.2, 0.25, 0.5, 0.05, 0.9, rng.uniform(0.02, 1.1)]))
        perr = np.abs(rng.normal(0, 0.1, m)) if rng.random() < 0.4 else None
        if perr is not None and rng.random() < 0.3:
            perr[0] = np.nan
        tr.append([event(r, p, perr, eta, kind, num, rng.random() < 0.2)])
    for k in range(ctx.n(200, 2000)):
        tr.append([object_event(rng)])
    ctx.judge("C06", tr, "random profiles and Petrosian objects")
    ctx.exhaustive = False
