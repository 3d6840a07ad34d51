"""C21: search, sampling, sorting and matching helpers."""
import numpy as np
from astropy import units as u
import vf

CH = 40


def event(op, args, fn, **kw):
    ev = dict(op=op, before=vf.digest(args), **{k: vf.enc(v) for k, v in kw.items()})
    ok, r = vf.raw(fn)
    ev["ok"] = int(ok)
    if ok:
        ev.update({k: vf.enc(v) for k, v in r.items()})
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
    ev["after"] = vf.digest(args)
    return ev


def codes(ws):
    return [[ord(c) for c in w] for w in ws]


def closest(a, value, grow):
    from petrofit.utils import closest_value_index as f

    kw = {"growing": True} if grow else {}
    return event("closest", a, lambda: dict(got=f(value, a, **kw)), a=a, value=value, grow=grow)


def sort(words):
    from petrofit.utils import natural_sort

    def fn():
        g = natural_sort(words)
        return dict(got=codes(g)) if g is not words else dict(got="same list")

    return event("sort", words, fn, words=codes(words))


def case(cs):
    tr = []
    for c in cs:
        if c["op"] == "closest":
            tr.append(closest(np.array([float(x) for x in c["a"]]), c["v2"] / 2, c["grow"]))
        else:
            tr.append(sort(list(c["words"])))
    return tr


def rand(seed):
    from petrofit import utils as U

    rng = np.random.default_rng(seed)
    tr = []
    # search in longer arrays
    n = int(rng.integers(1, 60)) if seed % 8 else int(rng.integers(150, 400))
    a = np.cumsum(rng.normal(0, 1, n)) if rng.random() < 0.5 else rng.integers(-9, 9, n).astype(float)
    a[rng.random(n) < 0.1] = np.nan
    if rng.random() < 0.2:
        a = np.nan_to_num(a).astype(int)
    if rng.random() < 0.3 and n > 3:        # the nearest element long before the first on the target side
        a = np.linspace(20, 1, n) + rng.uniform(0, 3, n)
        a[int(rng.integers(0, n // 2))] = 0.25
        a[-1] = -3
        a = a if rng.random() < 0.5 else -a
        tr.append(closest(a, 0.0, int(a[-1] > 0)))
    tr.append(closest(a, float(rng.choice([a[int(rng.integers(n))] if n else 0, rng.normal(0, 3)])), int(rng.integers(2)))
              if not np.isnan(a.astype(float)).all() else closest(np.array([1.0, 2.0]), 1.5, 1))
    # samples
    kind = [None, "cubic", "linear", "slinear", "nearest", "previous", "next", "zero", "quadratic"][seed % 9]
    n = int(rng.integers(4, 14))
    if rng.random() < 0.5:
        x = np.arange(n) * float(rng.uniform(0.1, 5)) + float(rng.integers(0, 9))
        num = int(rng.choice([k * (n - 1) + 1 for k in range(1, 6)]))
    else:
        x = np.cumsum(rng.uniform(0.1, 3, n))
        num = int(rng.integers(2, 120))
    y = rng.normal(0, 5, n)
    if rng.random() < 0.3:
        y = np.cumsum(np.abs(y))
    xin, yin = x.copy(), y.copy()
    if rng.random() < 0.25 and kind in ("linear", "slinear", None):
        k = rng.permutation(n)
        xin, yin = x[k], y[k]
    if rng.random() < 0.2:
        xin, yin = list(map(float, xin)), list(map(float, yin))

    def samples():
        gx, gy = U.get_interpolated_values(xin, yin, num=num, kind=kind) if kind != "cubic" or seed % 2 else U.get_interpolated_values(xin, yin, num)
        return dict(gx=gx, gy=gy)

    tr.append(event("samples", [xin, yin], samples, x=xin, y=yin, num=num, kind=kind))
    # radius lists
    n = int(rng.integers(2, 40))
    log = int(rng.integers(2))
    mx = float(rng.uniform(1.1, 300)) if rng.random() < 0.6 else int(rng.integers(2, 300))
    if not log and rng.random() < 0.2:
        mx = float(rng.uniform(0.01, 1))
    if log and rng.random() < 0.2:
        mx = 1 + float(10 ** rng.uniform(-4, -1))
    tr.append(event("radii", [], lambda: dict(got=U.make_radius_list(mx, n, log=bool(log))), max=mx, n=n, log=log))
    # sorting
    alpha = list("abAB019 _.-zZ")
    ws = ["".join(rng.choice(alpha, int(rng.integers(0, 7)))) for _ in range(int(rng.integers(0, 9)))]
    if seed % 4 == 0:       # a long list
        ws = ["".join(rng.choice(alpha, int(rng.integers(0, 4)))) for _ in range(int(rng.integers(20, 70)))]
    tr.append(sort(ws))
    # file names with numbers of all lengths, padded or not
    stem, tail = ["im", "a", "Frame 2 ", ""][seed % 4], [".fits", "", "-b3"][seed % 3]
    ks = [int(10 ** rng.uniform(0, 9)) if seed % 5 else 10**18 * int(rng.integers(10**9)) + int(rng.integers(10**18)) for _ in range(int(rng.integers(2, 9)))]
    ws = [(stem if rng.random() < 0.9 else stem.upper()) + str(k).zfill(int(rng.integers(0, 12))) + tail for k in ks + ks[:2]]
    tr.append(sort([ws[k] for k in rng.permutation(len(ws))]))
    # matching
    n1, n2 = int(rng.integers(1, 8)), int(rng.integers(1, 9))
    if rng.random() < 0.5:
        ra1, ra2 = rng.uniform(0, 360, n1), rng.uniform(0, 360, n2)
        d1, d2 = rng.uniform(-89, 89, n1), rng.uniform(-89, 89, n2)
    else:   # a small field, across RA 0 or near a pole
        d0 = float(rng.choice([0, 30, -60, 88]))
        ra1, ra2 = rng.uniform(-0.1, 0.1, n1) % 360, rng.uniform(-0.1, 0.1, n2) % 360
        d1, d2 = d0 + rng.uniform(-0.1, 0.1, n1), d0 + rng.uniform(-0.1, 0.1, n2)
    unit = ["deg", "rad", "default", u.deg, u.rad, u.arcmin, "arcsec"][seed % 7]
    q = {"rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0}.get(str(unit), 1.0)
    args = [ra1 * q, d1 * q, ra2 * q, d2 * q]

    def match():
        r = U.match_catalogs(*args, **({} if isinstance(unit, str) and unit == "default" else {"unit": unit}))
        return dict(idx=np.atleast_1d(r[0]), sep=np.atleast_1d(r[1].deg))

    tr.append(event("match", args, match, ra1=ra1, dec1=d1, ra2=ra2, dec2=d2))
    return tr


def run(ctx):
    import petrofit  # noqa: F401

    cs = vf.records(ctx.model("C21Model", "CONSTANTS MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                              % ctx.n(5, 6), what="all small arrays and word triples"), "CASE")
    cs.sort(key=str)
    ctx.judge("C21", ctx.pmap(case, [cs[i:i + CH] for i in range(0, len(cs), CH)]), "all small inputs")
    ctx.judge("C21", ctx.pmap(rand, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(700, 9000))]), "random inputs")
