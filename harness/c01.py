"""C01: aperture photometry of every kind of image, mask, error map, shape and overlap method."""
import numpy as np
import vf

CH = 12


def image(kind, ny, nx, rng):
    v = np.round(rng.gamma(1.5, 20, (ny, nx)) * 16) / 16
    if kind == "signed":
        v = v - 30
    if kind == "float32":
        return v.astype(np.float32)
    if kind == "int":
        return rng.integers(-40, 400, (ny, nx)).astype(rng.choice([np.int64, np.int32, np.int16]))
    if kind == "big-endian":
        return v.astype(">f8")
    if kind == "strided":
        b = np.zeros((2 * ny, nx + 3))
        b[::2, 1:-2] = v
        return b[::2, 1:-2]
    if rng.random() < 0.2:
        return rng.normal(0, 1000, (ny, nx))
    return v


def phot(c, rng, big=0):
    from matplotlib import pyplot as plt
    from petrofit.photometry import radial_photometry

    lo, hi = [(3, 13), (8, 26), (55, 80)][big]
    ny, nx = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    img = image(c["image"], ny, nx, rng)
    ce = c["centre"]
    ix, iy = int(rng.integers(0, nx)), int(rng.integers(0, ny))
    x, y = {"pixel-centre": (ix, iy), "pixel-corner": (ix + 0.5, iy - 0.5), "pixel-edge": (ix + 0.5, iy),
            "anywhere": (rng.uniform(-0.5, nx - 0.5), rng.uniform(-0.5, ny - 0.5)),
            "image-edge": (rng.choice([-0.5, 0, nx - 1, nx - 0.5]), rng.uniform(0, ny - 1)),
            "off-image": (rng.choice([-2.3, nx + 1.2]), rng.choice([-1.7, ny / 2, ny + 0.6]))}[ce]
    if ce not in ("pixel-centre",) or rng.random() < 0.4:
        x, y = float(x), float(y)
    elong, theta = {"circle": (1.0, rng.uniform(-4, 4)), "half": (2.0, float(rng.choice([0, np.pi / 2, np.pi / 4, -np.pi / 2, np.pi]))),
                    "thin": (rng.uniform(3, 12), rng.uniform(-7, 7)), "turned": (rng.uniform(1, 4), rng.uniform(-np.pi, np.pi)),
                    "across": (rng.uniform(0.4, 1), rng.uniform(-np.pi, np.pi))}[c["shape"]]
    n = int(rng.integers(1, 5))
    rmin = 0.05
    if ce == "off-image":   # every ellipse has to reach the image: cover its nearest points generously
        rmin = 1.6 * max(elong, 1 / elong) * (np.hypot(max(-0.5 - x, x - nx + 0.5, 0), max(-0.5 - y, y - ny + 0.5, 0)) + 0.5)
    r = rmin + rng.gamma(1.2, max(nx, ny) / 3, n)
    if rng.random() < 0.3 and ce != "off-image":
        r = rng.choice([0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 6], n)
    if rng.random() < 0.5:
        r = np.sort(r)
    r = {0: lambda: r, 1: lambda: list(map(float, r)), 2: lambda: tuple(map(float, r)),
         3: lambda: [int(np.ceil(v)) for v in r]}[int(rng.integers(4))]()
    mask = None
    nan = np.zeros((ny, nx), bool)
    if c["mask"] != "none":
        mask = {"all-true": np.ones((ny, nx), bool), "some-false": rng.random((ny, nx)) < 0.7,
                "one-true": np.zeros((ny, nx), bool), "nan-masked": rng.random((ny, nx)) < 0.6}[c["mask"]]
        if c["mask"] == "one-true":
            mask[iy, ix] = True
    floating = img.dtype.kind == "f"
    if c["mask"] == "nan-masked" and floating:
        nan = ~mask & (rng.random((ny, nx)) < 0.8)
    if floating and rng.random() < 0.12:    # a NaN which may be usable and inside
        nan = nan | (rng.random((ny, nx)) < 1.5 / (nx * ny))
    if nan.any():
        img = img.copy()
        img[nan] = np.nan
    err = None
    if c["err"] != "none":
        err = {"some": rng.gamma(2, 3, (ny, nx)), "nan-masked": rng.gamma(2, 3, (ny, nx)), "zero": np.zeros((ny, nx)),
               "int": rng.integers(0, 9, (ny, nx))}[c["err"]]
        if c["err"] == "nan-masked" and mask is not None:
            err[~mask] = np.nan
    pos = {0: (x, y), 1: [x, y], 2: np.array([x, y])}[int(rng.integers(3))]
    args = [img, pos, r, err, mask]
    ev = dict(op="phot", before=vf.digest(args), img=vf.enc(img), err=vf.enc(err), use=vf.enc((np.ones((ny, nx)) if mask is None else mask).astype(int)),
              x=vf.enc(x), y=vf.enc(y), r=vf.enc([float(v) for v in r]), elong=vf.enc(elong), theta=vf.enc(theta), method=c["method"], kind=c)
    kw = dict(elong=elong, theta=theta, method=c["method"])
    if err is not None or rng.random() < 0.3:
        kw["error"] = err
    if mask is not None or rng.random() < 0.3:
        kw["mask"] = mask
    if c["method"] == "exact" and rng.random() < 0.5:
        kw.pop("method")
    if c["shape"] == "circle" and rng.random() < 0.5:
        kw.pop("elong"), kw.pop("theta")
    plot = rng.random() < 0.04
    if plot:
        kw["plot"] = True
        plt.figure()
    ok, v = vf.raw(radial_photometry, img, pos, r, **kw)
    if plot:
        plt.close("all")
    ev["ok"] = int(ok)
    if ok:
        ev.update(flux=vf.enc(np.asarray(v[0])), area=vf.enc(np.asarray(v[1])), ferr=vf.enc(np.asarray(v[2])))
    else:
        ev["exc"] = type(v).__name__ + ":" + str(v)[:80].replace("#", "")
    ev["after"] = vf.digest(args)
    return ev


def geom(rng):
    from petrofit.photometry import radial_elliptical_annulus, radial_elliptical_aperture

    x, y, r, dr = float(rng.normal(0, 50)), float(rng.normal(0, 50)), float(rng.gamma(1, 20) + 0.01), float(rng.gamma(1, 5) + 0.01)
    elong, theta = float(0.5 + rng.gamma(1, 1)), float(rng.uniform(-3, 3))
    pos = [(x, y), [x, y], np.array([x, y])][int(rng.integers(3))]
    kw = dict(elong=elong, theta=theta)
    if rng.random() < 0.2:
        elong, theta, kw = 1.0, 0.0, {}
    ev = dict(op="geom", before=vf.digest([pos]), x=vf.enc(x), y=vf.enc(y), r=vf.enc(r), dr=vf.enc(dr), elong=vf.enc(elong), theta=vf.enc(theta))
    f = lambda t: float(getattr(t, "value", t))  # noqa: E731
    ok, v = vf.raw(lambda: (radial_elliptical_aperture(pos, r, **kw), radial_elliptical_annulus(pos, r, dr, **kw)))
    ev["ok"] = int(ok)
    if ok:
        a, g = v
        ev.update(cx=vf.enc(a.positions[0]), cy=vf.enc(a.positions[1]), a=vf.enc(a.a), b=vf.enc(a.b), th=vf.enc(f(a.theta)),
                  ann=vf.enc([g.a_in, g.b_in, g.a_out, g.b_out, g.positions[0], g.positions[1], f(g.theta)]))
    ev["after"] = vf.digest([pos])
    return ev


def case(job):
    cs, seed = job
    rng = np.random.default_rng(seed)
    return [phot(c, rng) for c in cs]


def rand(job):
    cs, seed = job
    rng = np.random.default_rng(seed)
    return [phot(c, rng, 1) for c in cs] + [geom(rng)]


def large(job):
    c, seed = job
    return [phot(c, np.random.default_rng(seed), 2)]


def run(ctx):
    import petrofit.photometry  # noqa: F401

    cs = vf.records(ctx.model("C01Model", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                              what="all combinations of kinds of arguments"), "CASE")
    cs.sort(key=str)
    for rep in range(ctx.n(1, 6)):
        jobs = [cs[i:i + CH] for i in range(0, len(cs), CH)]
        if not ctx.thorough:
            jobs = [j[::2] if ctx.rng.random() < 0.5 else j[1::2] for j in jobs]
        ctx.judge("C01", ctx.pmap(case, list(zip(jobs, (int(k) for k in ctx.rng.integers(0, 2**31, len(jobs)))))), "kinds of arguments")
    k = ctx.n(200, 2000)
    jobs = [[cs[int(i)] for i in ctx.rng.integers(0, len(cs), 2)] for _ in range(k)]
    ctx.judge("C01", ctx.pmap(rand, list(zip(jobs, (int(s) for s in ctx.rng.integers(0, 2**31, k))))), "larger images and geometry")
    k = ctx.n(16, 120)
    jobs = [cs[int(i)] for i in ctx.rng.integers(0, len(cs), k)]
    ctx.judge("C01", ctx.pmap(large, list(zip(jobs, (int(s) for s in ctx.rng.integers(0, 2**31, k))))), "images of thousands of pixels")
