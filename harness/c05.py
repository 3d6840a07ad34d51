"""C05: record Petrosian profiles of random and adversarial curves of growth."""
import numpy as np
import gen
import vf


def event(area, flux, aerr, ferr, api, kind):
    import petrofit as pf
    from petrofit.petrosian.core import calculate_petrosian

    conv = {"list": lambda v: [x.item() for x in np.asarray(v)], "array": np.array,
            "int": lambda v: np.array(v), "narrow": gen.narrow, "tuple": lambda v: tuple(x.item() for x in np.asarray(v))}[kind]
    a, f = conv(area), conv(flux)
    ea = None if aerr is None else conv(aerr)
    ef = None if ferr is None else conv(ferr)
    before = [vf.digest(x) for x in (a, f, ea, ef)]

    def run():
        if api == "function":
            p, e = calculate_petrosian(a, f, area_err=ea, flux_err=ef)
        else:
            r = np.arange(1, len(area) + 1) * 1.0
            o = pf.Petrosian(r, a, f, area_err=ea, flux_err=ef)
            p, e = o.petrosian_list, o.petrosian_err
        return {"p": p, "e": e}

    out = vf.call(run)
    after = [vf.digest(x) for x in (a, f, ea, ef)]
    return {"area": vf.enc(area), "flux": vf.enc(flux), "aerr": vf.enc(aerr), "ferr": vf.enc(ferr),
            "api": api, "kind": kind, "out": out, "before": before, "after": after}


def curve(rng, n, ints, repeats):
    if ints:
        da = rng.integers(1, 30, n)
        df = rng.integers(-3, 50, n)
    else:
        da = rng.uniform(0.1, 30, n) * 10.0 ** rng.integers(-3, 4)
        df = rng.uniform(-0.05, 5, n) * np.sort(rng.uniform(0.01, 1, n))[::-1] * 10.0 ** rng.integers(-4, 5)
    if repeats:
        for k in rng.choice(np.arange(1, n), size=rng.integers(1, max(2, n // 2)), replace=False):
            da[k] = 0
    if rng.random() < 0.3:
        df[rng.integers(1, n)] = 0
    a, f = np.cumsum(da), np.cumsum(df)
    if f.min() <= 0 and (f == 0).any():
        f = f + (7 if ints else 7.5)
    return a, f


def run(ctx):
    rng = ctx.rng
    tr = []
    for k in range(ctx.n(700, 6000)):
        n = int(rng.integers(3, 14))
        ints = rng.random() < 0.35
        a, f = curve(rng, n, ints, rng.random() < 0.5)
        err = rng.integers(0, 4)
        if ints and rng.random() < 0.4:  # counts of bright sources: squares exceed 32 and 64 bits
            big = int(10 ** rng.integers(2, 9))
            a, f = a * int(rng.choice([1, 100])), f * big
        mk = (lambda: rng.integers(0, 4, n) * max(1, int(np.abs(f).max()) // 9)) if ints and rng.random() < 0.5 else (lambda: rng.integers(0, 4, n)) if ints and rng.random() < 0.5 else (lambda: rng.uniform(0, 2, n) * np.abs(f) / 20)
        ea = mk() if err & 1 else None
        ef = mk() if err & 2 else None
        kind = ["list", "array", "narrow", "tuple"][rng.integers(0, 4)]
        api = "function" if rng.random() < 0.7 else "class"
        if k % 12 == 0:  # inputs that must be rejected
            w = rng.integers(0, 3)
            if w == 0:
                a, f, ea, ef = a[:2], f[:2], None, None
            elif w == 1:
                a = a.copy()
                a[1], a[2] = max(a[1], a[2]) + 1, min(a[1], a[2]) - 1
            else:
                f = f[:-1]
                ea = ef = None
        tr.append([event(a, f, ea, ef, api, kind)])
    ctx.judge("C05", tr, "random curves of growth, repeated areas, integer/float/list inputs")
