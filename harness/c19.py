"""C19: generalised Sersic and Nuker light profiles, default bounds."""
import numpy as np
import vf

OVER = {"none": {}, "amplitude": {"amplitude": (-5.0, 5.0)}, "n": {"n": (1, 2)}, "c_0": {"c_0": (-1, 1)}, "extra": {"x_0": (3, None)}}


PN = ["amplitude", "r_eff", "n", "x_0", "y_0", "ellip", "theta", "c_0"]


def clean(d):
    return {k: [None if x is None else float(x) for x in v] for k, v in d.items()}


def bounds(hist):
    import petrofit as pf

    fn = {"plain": pf.get_default_sersic_bounds, "gen": pf.get_default_gen_sersic_bounds}
    tr = [{"op": "defaults", "plain": vf.enc(clean(DEF[0])), "gen": vf.enc(clean(DEF[1]))}]
    res = []
    for e in hist + [{"op": "call", "kind": k, "over": "none", "how": "default", "i": 0} for k in ("plain", "gen")]:
        if e["op"] == "call":
            over = dict(OVER[e["over"]])
            b = str(over)
            ok, r = vf.raw(fn[e["kind"]], *([over] if e["how"] == "dict" else []))
            ev = {"op": "bounds", "kind": e["kind"], "over": vf.enc(clean(over)), "ok": int(ok), "before": b, "after": str(over)}
            if ok:
                ev["got"] = vf.enc(clean(r))
                ev["fresh"] = int(all(r is not x for x in res) and r is not over)
                res.append(r)
            tr.append(ev)
        elif e["i"] <= len(res):
            d = res[e["i"] - 1]
            if e["op"] == "set":
                d["amplitude"] = (1.0, 1.5)
            elif e["op"] == "del":
                d.pop("r_eff", None)
            else:
                d["y_0"] = (0.0, 1.0)
    return tr


def num(rng, lo, hi):
    return round(float(rng.uniform(lo, hi)), 4)


def gen(seed):
    import petrofit as pf
    from astropy.modeling import models

    rng = np.random.default_rng(seed)
    n = float(rng.choice([0.5, 1, 2, 4, num(rng, 0.4, 9)]))
    p = [10 ** num(rng, -2, 3), num(rng, 0.5, 30), n, num(rng, -50, 50), num(rng, -50, 50),
         float(rng.choice([0, num(rng, 0, 0.9)])), float(rng.choice([0, num(rng, -6, 6)])), float(rng.choice([0, num(rng, -0.9, 2), 2]))]
    amp, re, n, x0, y0, el, th, c0 = p
    ev = {"op": "gen", "p": vf.enc(p)}

    def act():
        m = pf.GenSersic2D(**dict(zip(PN, p)))
        c, s = np.cos(th), np.sin(th)

        def at(a, b, mm=m):   # coordinates along the major and minor axis
            a, b = np.asarray(a, float), np.asarray(b, float)
            return mm(x0 + a * c - b * s, y0 + a * s + b * c)

        def curve(t, q):      # points of the generalised ellipse of size q
            k = 2 / (c0 + 2)
            ct, st = np.cos(t), np.sin(t)
            return q * re * np.sign(ct) * np.abs(ct) ** k, q * re * (1 - el) * np.sign(st) * np.abs(st) ** k

        a = rng.uniform(-4, 4, 8) * re
        b = rng.uniform(-4, 4, 8) * re * (1 - el)
        x, y = x0 + a * c - b * s, y0 + a * s + b * c
        t = rng.uniform(0, 2 * np.pi, 6)
        iso = np.concatenate([at([re, -re, 0, 0], [0, 0, re * (1 - el), -re * (1 - el)]), at(*curve(t, 1.0))])
        q = float(rng.uniform(0.1, 4))
        ray = np.sort(rng.uniform(0.01, 5, 6))
        ray[1:] = np.maximum(ray[1:], ray[:-1] * 1.01)
        ang = rng.uniform(0, 2 * np.pi)
        m0 = pf.GenSersic2D(**dict(zip(PN, p[:7])))
        ms = models.Sersic2D(*p[:7])
        v = m(x, y)
        return dict(x=x, y=y, v=v, iso=iso, ring=at(*curve(t, q)), ray=at(ray * np.cos(ang) * re, ray * np.sin(ang) * re * (1 - el)),
                    anti=m(2 * x0 - x, 2 * y0 - y), mir1=at(a, -b), mir2=at(-a, b), plain=m0(x, y), sersic=ms(x, y),
                    scalar=[float(m(float(i), float(j))) for i, j in zip(x, y)])

    ok, r = vf.raw(act)
    ev["ok"] = int(ok)
    if ok:
        ev.update({k: vf.enc(v) for k, v in r.items()})
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
    return [ev]


def nuker(seed):
    import petrofit as pf

    rng = np.random.default_rng(seed)
    al, be, ga = num(rng, 0.5, 5), num(rng, 1.2, 6), float(rng.choice([0, num(rng, 0, 1.1)]))
    integer = rng.random() < 0.4
    x0, y0 = (int(rng.integers(-9, 9)), int(rng.integers(-9, 9))) if integer else (num(rng, -9, 9), num(rng, -9, 9))
    p = [10 ** num(rng, -2, 3), num(rng, 0.5, 9), x0, y0, al, be, ga]
    ev = {"op": "nuker", "p": vf.enc(p)}

    def act():
        m = pf.Nuker2D(*p)
        if integer:
            x, y = np.meshgrid(np.arange(x0 - 2, x0 + 2), np.arange(y0 - 1, y0 + 2))
            x, y = x.ravel(), y.ravel()
            if seed % 2:
                x, y = x.astype(float), y.astype(float)
        else:
            x, y = np.append(x0 + rng.uniform(-20, 20, 8), x0), np.append(y0 + rng.uniform(-20, 20, 8), y0)
        t = rng.uniform(0, 2 * np.pi, 6)
        q = float(rng.uniform(0.2, 30))
        at = lambda r: m(x0 + np.asarray(r) * np.cos(t[0]), y0 + np.asarray(r) * np.sin(t[0]))
        big = 10.0 ** (5 / al) * p[1]
        rin, rout = np.array([0.1, 1]) / big * p[1] ** 2, np.array([1, 10]) * big
        m2 = pf.Nuker2D(p[0], p[1], 0, 0, al, be, ga)
        at0 = lambda r: m2(r * np.cos(t[0]), r * np.sin(t[0]))
        return dict(x=x, y=y, v=m(x, y), circle=m(x0 + q * np.cos(t), y0 + q * np.sin(t)),
                    brk=m(x0 + p[1] * np.cos(t), y0 + p[1] * np.sin(t)), rin=rin, inn=at0(rin), rout=rout, out=at0(rout),
                    scalar=[float(m(i, j)) for i, j in zip(x, y)])

    ok, r = vf.raw(act)
    ev["ok"] = int(ok)
    if ok:
        ev.update({k: vf.enc(v) for k, v in r.items()})
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
    return [ev]


def core(seed):
    from petrofit.modeling.models import CoreSersic2D

    rng = np.random.default_rng(seed)
    re, n = num(rng, 0.5, 30), float(rng.choice([0.5, 1, 2, 4, num(rng, 0.4, 8)]))
    x0, y0 = (int(rng.integers(-9, 9)), int(rng.integers(-9, 9))) if seed % 3 == 0 else (num(rng, -9, 9), num(rng, -9, 9))
    el, th = float(rng.choice([0, num(rng, 0, 0.9)])), float(rng.choice([0, num(rng, -6, 6)]))
    rb, al, ga = round(re * num(rng, 0.05, 0.9), 4), num(rng, 0.6, 12), float(rng.choice([0, num(rng, 0, 1.2)]))
    p = [10 ** num(rng, -2, 3), re, rb, n, x0, y0, al, ga, el, th]
    ev = {"op": "core", "p": vf.enc(p)}

    def act():
        m = CoreSersic2D(*p)
        c, s = np.cos(th), np.sin(th)

        def at(a, b, mm=m, x0=x0, y0=y0):
            a, b = np.asarray(a, float), np.asarray(b, float) * (1 - el)
            return mm(x0 + a * c - b * s, y0 + a * s + b * c)

        a, b = rng.uniform(-4, 4, 8) * re, rng.uniform(-4, 4, 8) * re * (1 - el)
        x, y = np.append(x0 + a * c - b * s, x0), np.append(y0 + a * s + b * c, y0)
        if seed % 3 == 0:
            x, y = np.meshgrid(np.arange(x0 - 2, x0 + 2), np.arange(y0 - 1, y0 + 2))
            x, y = (x.ravel(), y.ravel()) if seed % 2 else (x.ravel() * 1.0, y.ravel() * 1.0)
        t, q = rng.uniform(0, 2 * np.pi, 6), re * float(rng.uniform(0.1, 4))
        m2 = CoreSersic2D(*[0 if k in (4, 5) else v for k, v in enumerate(p)])
        rin = rb * 10.0 ** np.array([-6 / al - 1, -6 / al]) * min(1, re / rb) ** n * 0.01 ** n
        return dict(x=x, y=y, v=m(x, y), ring=at(q * np.cos(t), q * np.sin(t)), brk=at(rb * np.cos(t), rb * np.sin(t)),
                    rin=rin, inn=at(rin * np.cos(t[0]), rin * np.sin(t[0]), m2, 0, 0), scalar=[float(m(i, j)) for i, j in zip(x, y)])

    ok, r = vf.raw(act)
    ev["ok"] = int(ok)
    if ok:
        ev.update({k: vf.enc(v) for k, v in r.items()})
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
    return [ev]


DEF = None


def run(ctx):
    global DEF
    import petrofit as pf

    hists = vf.records(ctx.model("C19Model", "CONSTANTS Depth = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                                 % ctx.n(3, 4), what="histories of bounds calls"), "CASE")
    DEF = dict(pf.get_default_sersic_bounds()), dict(pf.get_default_gen_sersic_bounds())
    if ctx.thorough:
        hists = [hists[i] for i in ctx.rng.permutation(len(hists))[:20000]]
    ctx.judge("C19", ctx.pmap(bounds, hists), "bounds histories")
    s = [int(x) for x in ctx.rng.integers(0, 2**31, ctx.n(1200, 20000))]
    tr = ctx.pmap(gen, s) + ctx.pmap(nuker, s) + ctx.pmap(core, s)
    for i in range(0, len(tr), 6000):
        ctx.judge("C19", tr[i:i + 6000], "light profiles")
