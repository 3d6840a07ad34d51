"""C12: model images and sampling grids for every enumerated request."""
import numpy as np
import lights
import vf

BAD = {"frac": 3.5, "fracpair": (3, 4.5), "none": None, "str": "5", "one": (4,), "three": (3, 4, 5), "nan": float("nan"), "dict": {}}


def size_of(s):
    t = s[0]
    return {"int": lambda: int(s[1]), "float": lambda: float(s[1]), "npint": lambda: np.int64(s[1]),
            "npfloat": lambda: np.float64(s[1]), "tuple": lambda: tuple(s[1:]), "list": lambda: list(s[1:]),
            "mixed": lambda: (s[1], float(s[2])), "bad": lambda: BAD[s[1]]}[t]()


def job(a):
    from petrofit.modeling import make_grid, model_to_image

    c, kind, p, how, seed = a
    ev = dict(c)
    ctr = [x / 2 for x in c["centre"]]
    if seed % 3 == 0 and all(x == int(x) for x in ctr):
        ctr = [int(x) for x in ctr]
    ctr = ([list, tuple][seed % 2](ctr)) or None
    if c["op"] == "grid":
        if ctr is not None and seed % 2:       # anywhere
            ctr = [float(x) for x in np.random.default_rng(seed).normal(0, 50, 2)]
        ev["origin"] = vf.enc(ctr or [0, 0])
        ev["before"] = ev["after"] = 0
        kw = {"origin": ctr} if ctr is not None else {}
        ok, r = vf.raw(lambda: make_grid(size_of(c["size"]), factor=c["factor"], **kw))
        ev["ok"] = int(ok)
        if ok:
            ev["gx"], ev["gy"] = vf.enc(np.asarray(r[0])), vf.enc(np.asarray(r[1]))
        return [ev]
    m = lights.build(kind, p)
    if how == "psf":
        import petrofit as pf

        m = pf.PSFConvolvedModel2D(m)
    f = m
    if how == "function":
        def f(x, y):
            return m(x, y)
    ev["m"] = lights.describe(kind, p)
    ev["before"] = vf.digest(m)
    kw = {}
    if c["mode"] != "default":
        kw = {"mode": c["mode"], "factor": c["factor"]}
    if ctr is not None:
        kw["center"] = ctr
    ok, r = vf.raw(lambda: model_to_image(f, size_of(c["size"]), **kw))
    ev["ok"] = int(ok)
    if ok:
        ev["img"] = vf.enc(np.asarray(r))
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
    ev["after"] = vf.digest(m)
    return [ev]


def run(ctx):
    cases = vf.records(ctx.model("C12Model", "CONSTANTS MaxSize = 6\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                                 what="all requests"), "CASE")
    cases.sort(key=str)
    rng = ctx.rng
    img = [c for c in cases if c["op"] == "image"]
    cheap = [c for c in img if c["mode"] != "integrate"]
    slow = [c for c in img if c["mode"] == "integrate"]
    pick = lambda l, n: [l[i] for i in sorted(rng.permutation(len(l))[:n])]
    sel = pick(cheap, ctx.n(2200, 9000)) + pick(slow, ctx.n(120, 900)) + [c for c in cases if c["op"] == "grid"]
    sel += [c for c in img if c["size"][0] == "bad" and c["mode"] == "default" and not c["centre"]]
    for i in range(ctx.n(6, 60)):     # large images
        sel.append({"op": "image", "size": ["tuple", int(rng.integers(20, 60)), int(rng.integers(20, 60))],
                    "centre": [int(rng.integers(-50, 200)), int(rng.integers(-50, 200))], "mode": "center", "factor": 1})
        sel.append({"op": "grid", "size": ["int", int(rng.integers(7, 30))], "centre": [int(rng.integers(-50, 200)), 3],
                    "mode": "", "factor": int(rng.integers(1, 4))})
    for f in (7, 13, 16, 20, 25):     # fine sampling
        sel.append({"op": "grid", "size": ["int", int(rng.integers(1, 3))], "centre": [int(rng.integers(-50, 200)), 3], "mode": "", "factor": f})
        sel.append({"op": "image", "size": ["tuple", 1, int(rng.integers(1, 3))], "centre": [5, 3], "mode": "oversample", "factor": f})
    jobs = []
    for i, c in enumerate(sel):
        how = ["model", "function", "model", "psf"][i % 4]
        kinds = ("poly",) if c["mode"] == "integrate" else ("poly", "moffat", "gauss", "sersic", "sum")
        if how == "psf" and c["mode"] != "center":
            how = "model"
        kind, p = lights.draw(rng, kinds)
        jobs.append((c, kind, p, how, i))
    ctx.judge("C12", ctx.pmap(job, jobs), "images and grids")
