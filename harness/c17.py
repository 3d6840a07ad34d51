"""C17: fits with every fitter, model, kind of excluded pixel, weight and fixed parameter; background, Gaussian fits and plots."""
import contextlib
import io
from fractions import Fraction

import numpy as np
import lights
import vf

CH = 10
BASIS = {"plane": [(1, 0), (0, 1), (0, 0)], "poly2": [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1)], "const": [(0, 0)]}


def fitters():
    from astropy.modeling import fitting as F

    return {"trf": F.TRFLSQFitter, "levmar": F.LevMarLSQFitter, "lm": F.LMLSQFitter, "linear": F.LinearLSQFitter}


def model(kind, rng, start):
    """(model, start values)"""
    from astropy.modeling import models as M

    if kind == "plane":
        return M.Planar2D(*start)
    if kind == "poly2":
        return M.Polynomial2D(2, **dict(zip(lights.POLY, start)))
    if kind == "const":
        return M.Const2D(*start)
    if kind == "gauss":
        return M.Gaussian2D(*start)
    return M.Moffat2D(*start)


def pixels(rng, ny, nx, truth, nan, mask, noise):
    """image (array or masked array) with invalid pixels, and what is excluded"""
    z = truth + noise * rng.normal(0, 1, (ny, nx))
    if noise and rng.random() < 0.3:        # exact values and zeros
        z = np.rint(z)
        z[rng.random((ny, nx)) < 0.1] = 0
        if nan == "none" and mask != "masked-nan":
            z = z.astype([int, float, np.float32, np.int16][int(rng.integers(4))])
    isnan, ismask = np.zeros((ny, nx), bool), np.zeros((ny, nx), bool)
    if nan == "some":
        isnan = rng.random((ny, nx)) < 0.15
    elif nan == "row":
        isnan[int(rng.integers(ny))] = True
        isnan[:, int(rng.integers(nx))] |= rng.random(ny) < 0.5
    if mask != "array":
        ismask = rng.random((ny, nx)) < 0.15
    if (isnan | ismask).sum() > ny * nx // 2:
        isnan[:] = False
    if isnan.any():
        z[isnan] = np.nan
    if mask != "array":
        z[ismask & ~isnan] = rng.choice([30000, -400, 77])       # values under the mask
        if mask == "masked-nan":
            ismask |= isnan & (rng.random((ny, nx)) < 0.5)
        return np.ma.array(z, mask=ismask), ismask
    return z, ismask


def outcome(ev, ok, r, fitter):
    ev["ok"] = int(ok)
    if not ok:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
        return
    f, inst = r
    ev.update(p=vf.enc([float(v) for v in f.parameters]), kind=type(f).__name__,
              unc=int(getattr(f, "cov_matrix", None) is not None), fitter_is=next((k for k, v in fitters().items() if type(inst) is v), type(inst).__name__), info=int(bool(getattr(inst, "fit_info", None))))


def default():
    """State of the default background model."""
    import petrofit as pf

    d = pf.fit_background.__defaults__ or ()
    return vf.digest([m for m in d if hasattr(m, "parameters")])


def fit(c, rng):
    import petrofit as pf

    ny, nx = int(rng.integers(6, 11)), int(rng.integers(6, 11))
    y, x = np.mgrid[:ny, :nx]
    kind = c["model"]
    exact = rng.random() < 0.4
    if kind in BASIS:
        t = rng.normal(0, 3, len(BASIS[kind]))
        t[-1 if kind == "plane" else 0] += rng.choice([0, 50])
        start = rng.normal(0, 2, len(t))
        if kind == "const":     # astropy's TRF fitter gets stuck at 0 on the way to another sign
            t, start = np.abs(t) + 1, np.abs(start) + 1
        img = sum(a * x**i * y**j for a, (i, j) in zip(t, BASIS[kind])) * 1.0
    else:
        t = np.array([rng.uniform(5, 30), rng.uniform(nx / 2 - 1.5, nx / 2 + 0.5), rng.uniform(ny / 2 - 1.5, ny / 2 + 0.5)]
                     + ([rng.uniform(1, 1.4), rng.uniform(1.8, 2.5), rng.uniform(0.3, 1.0)] if kind == "gauss" else [rng.uniform(1.5, 3), rng.uniform(0.8, 2)]))
        start = t * (1 + rng.uniform(-0.04, 0.04, len(t)))
        img = np.array(model(kind, rng, t)(x, y), dtype=float)
    m = model(kind, rng, start)
    fixed = [0] * len(start)
    if c["fixed"]:
        k = int(rng.integers(len(start)))
        if len(start) > 1:
            fixed[k] = 1
            setattr(getattr(m, m.param_names[k]), "fixed", True)
            if exact:
                setattr(m, m.param_names[k], t[k])
    start = [float(v) for v in m.parameters]
    z, mask = pixels(rng, ny, nx, img, c["nan"], c["mask"], 0 if exact else rng.choice([0.05, 0.5]))
    w = None
    if c["weight"] != "none":
        w = rng.uniform(0.2, 3, (ny, nx))
        if c["weight"] == "int":
            w = rng.integers(1, 5, (ny, nx))
        elif c["weight"] == "zero-some":
            zero = rng.random((ny, nx)) < 0.1
            w[zero] = 0
            if rng.random() < 0.6:      # bad pixels given no weight
                np.ma.getdata(z)[zero & ~np.isnan(np.ma.getdata(z))] = rng.choice([20000, -300])
        if c["weight"] != "int" and rng.random() < 0.6:     # weights of excluded pixels
            w[np.isnan(np.ma.getdata(z)) | mask] = rng.choice([np.nan, np.inf, 1e9])
        if c["weight"] == "bad-shape":
            w = [w[:-1], w[:, 1:], w.T if nx != ny else w[1:], np.ones((ny, nx, 1)), w.ravel()][int(rng.integers(5))]
    args = [z, m, w]
    ev = dict(op="fit", before=vf.digest(args), default0=default(), img=vf.enc(np.ma.getdata(z)), mask=vf.enc(mask.astype(int)), bad=int(c["weight"] == "bad-shape"),
              weights=vf.enc(w) if c["weight"] != "bad-shape" else "None", fitter=c["fitter"], basis=vf.enc(BASIS.get(kind)), fixed=fixed, start=vf.enc(start),
              truth=vf.enc(t) if exact else "None", light="gauss" if kind == "gauss" else "None", kind0=type(m).__name__, case=c)
    kw = {} if w is None and rng.random() < 0.5 else {"weights": w}
    if c["fitter"] != "trf" or rng.random() < 0.5:
        kw["fitter"] = fitters()[c["fitter"]]
    if rng.random() < 0.2:
        kw["calc_uncertainties"] = True
    if rng.random() < 0.2 and c["fitter"] != "linear":
        kw["estimate_jacobian"] = True
    ev["asked"] = int(kw.get("calc_uncertainties", False))
    ok, r = vf.raw(pf.fit_model, z, m, **kw)
    outcome(ev, ok, r, c["fitter"])
    ev["after"], ev["default1"] = vf.digest(args), default()
    return ev


def background(c, rng):
    import petrofit as pf

    ny, nx = int(rng.integers(6, 12)), int(rng.integers(6, 12))
    y, x = np.mgrid[:ny, :nx]
    kind = "plane" if c["model"] == "default" else c["model"]
    t = rng.normal(0, 0.2, len(BASIS[kind]))
    img = sum(a * x**i * y**j for a, (i, j) in zip(t, BASIS[kind])) * 1.0 + rng.choice([0, 20] if kind != "const" else [5, 20])
    z, mask = pixels(rng, ny, nx, img, c["nan"], c["mask"], rng.choice([0.1, 1]))
    hot = rng.random((ny, nx)) < 0.08
    d = z.data if isinstance(z, np.ma.MaskedArray) else z
    d[hot] += rng.choice([5, 40, -30])
    args = [z]
    m = None
    kw = {}
    if c["model"] != "default":
        m = model(kind, rng, np.abs(rng.normal(0, 1, 1)) + 1 if kind == "const" else rng.normal(0, 1, len(t)))
        kw["model"] = m
    start = [0.0] * len(BASIS[kind]) if m is None else [float(v) for v in m.parameters]
    if c["fitter"] != "linear" or rng.random() < 0.5:
        kw["fitter"] = fitters()[c["fitter"]]
    s = {"default": 3.0, "None": None}.get(c["sigma"], 0)
    if s == 0:
        s = float(Fraction(c["sigma"]))
    if c["sigma"] != "default":
        kw["sigma"] = s
    args = [z, m]
    ev = dict(op="background", before=vf.digest(args), default0=default(), img=vf.enc(np.ma.getdata(z)), mask=vf.enc(mask.astype(int)), weights="None",
              fitter=c["fitter"], basis=vf.enc(BASIS[kind]), fixed=[0] * len(start), start=vf.enc(start), sigma=vf.enc(s),
              kind0={"plane": "Planar2D", "poly2": "Polynomial2D", "const": "Const2D"}[kind], case=c)
    if rng.random() < 0.3:
        kw["calc_uncertainties"] = True
    ev["asked"] = int(kw.get("calc_uncertainties", False))
    ok, r = vf.raw(pf.fit_background, z, **kw)
    outcome(ev, ok, r, c["fitter"])
    ev["after"], ev["default1"] = vf.digest(args), default()
    return ev


def gaussian(seed):
    import petrofit as pf
    from astropy.modeling import models as M
    from matplotlib import pyplot as plt

    rng = np.random.default_rng(seed)
    ny, nx = int(rng.integers(13, 24)), int(rng.integers(13, 24))
    y, x = np.mgrid[:ny, :nx]
    sx = rng.uniform(1.2, 3)
    t = [float(rng.uniform(1, 90)), nx // 2 + float(rng.uniform(-1, 1)), ny // 2 + float(rng.uniform(-1, 1)), float(sx), float(sx * rng.choice([0.7, 0.8, 1.25, 1.4]))]
    img = M.Gaussian2D(*t)(x, y)
    bad = rng.random((ny, nx)) < 0.05
    how = str(rng.choice(["plain", "nan", "masked"]))
    if how == "nan":
        img[bad] = np.nan
    elif how == "masked":
        img[bad] = 500.0
        img = np.ma.array(img, mask=bad)
    b = vf.digest(img)
    ev = dict(op="gaussian", before=b, default0=default(), truth=vf.enc(t), how=how)
    plot = bool(rng.random() < 0.05)

    def run():
        g = pf.fit_gaussian2d(img)
        with contextlib.redirect_stdout(io.StringIO()):
            w = pf.measure_fwhm(img, plot=plot, printout=bool(rng.random() < 0.5))
        return g, w

    ok, r = vf.raw(run)
    plt.close("all")
    ev["ok"] = int(ok)
    if ok:
        ev.update(p=vf.enc([float(v) for v in r[0].parameters]), fwhm=vf.enc(np.array([float(v) for v in r[1]])))
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
    ev["after"], ev["default1"] = vf.digest(img), default()
    return [ev] + plots(rng)


def plots(rng):
    import petrofit as pf
    from astropy.nddata import CCDData, Cutout2D
    from matplotlib import pyplot as plt

    k, p = lights.draw(rng)
    m = lights.build(k, p)
    ny, nx = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    data = rng.normal(0, 3, (ny, nx))
    if rng.random() < 0.3:
        data[0, 0] = np.nan
    img = {0: data, 1: CCDData(data, unit="adu"), 2: Cutout2D(data, ((nx - 1) / 2, (ny - 1) / 2), (ny, nx))}[int(rng.integers(3))]
    centre = [] if rng.random() < 0.5 else [int(v) for v in rng.integers(-4, 9, 2)]
    kw = {"center": tuple(centre)} if centre else {}
    if rng.random() < 0.3:
        kw["cbar"] = False
    ev = dict(op="plot", before=vf.digest([data, m]), default0=default(), m=lights.describe(k, p), img=vf.enc(data), centre=centre)
    ok, r = vf.raw(pf.plot_fit, m, img, **kw)
    plt.close("all")
    ev["ok"] = int(ok)
    if ok:
        ev.update(model=vf.enc(np.asarray(r[2])), resid=vf.enc(np.asarray(r[3])))
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
    ev["after"], ev["default1"] = vf.digest([data, m]), default()
    out = io.StringIO()
    pr = dict(op="print", before=vf.digest(m), default0=default(), names=list(m.param_names), p=vf.enc([float(v) for v in m.parameters]))
    with contextlib.redirect_stdout(out):
        ok, r = vf.raw(pf.print_model_params, m)
    lines = []
    for s in out.getvalue().splitlines():
        q = s.split("\t")
        try:
            lines.append({"value": vf.enc(float(q[0])), "name": q[1]})
        except (ValueError, IndexError):
            lines.append({"value": "None", "name": "?"})
    pr.update(ok=int(ok), lines=lines, after=vf.digest(m), default1=default())
    return [ev, pr]


def case(job):
    cs, seed = job
    rng = np.random.default_rng(seed)
    return [fit(c, rng) if c["op"] == "fit" else background(c, rng) for c in cs]


def run(ctx):
    import petrofit  # noqa: F401

    cs = vf.records(ctx.model("C17Model", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", what="all combinations"), "CASE")
    cs.sort(key=str)
    for _ in range(ctx.n(1, 5)):
        jobs = [cs[i:i + CH] for i in range(0, len(cs), CH)]
        ctx.judge("C17", ctx.pmap(case, list(zip(jobs, (int(k) for k in ctx.rng.integers(0, 2**31, len(jobs)))))), "all combinations")
    ctx.judge("C17", ctx.pmap(gaussian, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(80, 800))]), "Gaussian fits, plots and printouts")
