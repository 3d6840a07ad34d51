"""C14: every transition of the configuration's state graph, and every construction, on real models."""
import warnings

import numpy as np
import vf


def mk_psf(kind, size=3):
    k = np.zeros((size, size))
    k[1, 1], k[0, 1], k[1, 2], k[2, 0] = 0.5, 0.25, 0.125, 0.125
    return k * SUMS[kind]


# how much light a PSF holds
SUMS = {"norm": 1, "unnorm": 2, "dim": 0.5, "slightly": 0.998, "norm-rounded": 1 + 2**-34}
PSFS = {k: mk_psf(k) for k in SUMS}


def value(x):
    t = x["t"]
    if t == "none":
        return None
    if t == "int":
        return int(x["v"])
    if t == "float":
        return float(x["s"])
    if t == "str":
        return x["s"]
    if t == "psf":
        return PSFS[x["s"]]
    return {"tuple": tuple, "list": list}[t](value(y) for y in x["e"])


def describe(v):
    def py(t, v=0, s="", e=()):
        return {"t": t, "v": v, "s": s, "e": list(e)}

    if v is None:
        return py("none")
    if isinstance(v, bool):
        return py("bool", int(v))
    if isinstance(v, int):
        return py("int", v)
    if isinstance(v, float):
        return py("float", 0, repr(v))
    if isinstance(v, str):
        return py("str", 0, v)
    if isinstance(v, np.ndarray):
        for k, (n, p) in enumerate(PSFS.items()):
            if v.shape == p.shape and (v == p).all():
                return py("psf", k + 1, n)
        return py("array")
    if isinstance(v, (tuple, list)):
        return py(type(v).__name__, 0, "", [describe(x) for x in v])
    return py(type(v).__name__)


def got(m):
    return {"os": describe(m.oversample), "po": describe(m.psf_oversample), "psf": describe(m.psf)}


def image(m):
    from petrofit.modeling import model_to_image

    ok, v = vf.raw(lambda: model_to_image(m, 6))
    return vf.digest(np.round(np.asarray(v), 9)) if ok else "exc"


def base(kind):
    from astropy.modeling import models

    g = models.Gaussian2D(amplitude=3, x_mean=2.3, y_mean=2.9, x_stddev=1.1, y_stddev=0.8)
    if kind == "2d":
        return models.Sersic2D(amplitude=2, r_eff=2, n=1, x_0=2.5, y_0=3.1, ellip=0.3, theta=0.4)
    if kind == "compound":
        return models.Sersic2D(amplitude=2, r_eff=2, n=1, x_0=2.5, y_0=3.1) + models.Const2D(0.5)
    if kind == "1d":
        return models.Gaussian1D()
    if kind == "psf":
        import petrofit as pf

        return pf.PSFConvolvedModel2D(g)


def walk(args):
    import petrofit as pf

    kind, hist = args
    m = pf.PSFConvolvedModel2D(base(kind))
    tr = []
    img0 = image(m)
    for a in hist:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                setattr(m, a["op"], value(a["x"]))
                ok = 1
            except Exception:
                ok = 0
        img = image(m)
        tr.append({"op": a["op"], "x": a["x"], "ok": ok, "warned": int(any("normal" in str(x.message).lower() for x in w)),
                   "got": got(m), "img": img, "img0": img0})
        img0 = img
    return tr


def construct(args):
    import petrofit as pf

    kind, a = args
    ev = {"op": "new", "model": kind, "os": a["os"], "po": a["po"], "psf": a["psf"], "ok": 0, "img": "exc", "warned": 0,
          "got": "none"}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            m = pf.PSFConvolvedModel2D(base(kind), psf=value(a["psf"]), oversample=value(a["os"]), psf_oversample=value(a["po"]))
            ev["ok"] = 1
        except Exception:
            pass
    ev["warned"] = int(any("normal" in str(x.message).lower() for x in w))
    if ev["ok"]:
        ev["got"] = got(m)
        ev["img"] = image(m)
    return [ev]


def run(ctx):
    lines = ctx.model("C14Model", "INIT Init\nNEXT Next\nVIEW State\nINVARIANT AlwaysValid\nCHECK_DEADLOCK FALSE\n",
                      what="complete state graph of the configuration", workers=1)
    hists, news = vf.records(lines, "CASE"), vf.records(lines, "NEW")
    jobs = [("2d", h) for h in hists]
    acts = [h[-1] for h in hists]
    rng = ctx.rng
    for i in range(ctx.n(150, 3000)):
        h = [acts[k] for k in rng.integers(0, len(acts), int(rng.integers(8, 25)))]
        jobs.append(("2d", h))
    ctx.judge("C14", ctx.pmap(walk, jobs), "every transition of the state graph; random walks")
    jobs = [("2d", a) for a in news] + [(k, a) for k in ("1d", "psf", "compound") for a in news[::11]]
    ctx.judge("C14", ctx.pmap(construct, jobs), "every construction")
    ctx.exhaustive = True
