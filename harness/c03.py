"""C03: photometry of catalogued sources in every kind of frame and cutout."""
import numpy as np
import vf

CH = 8


def field(rng, c):
    """image and segmentation map; the target is source `label`, the label of each source arbitrary"""
    lo, hi = (62, 84) if c.get("large") else (8, 22)
    ny, nx = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    y, x = np.mgrid[:ny, :nx]
    seg = np.zeros((ny, nx), int)
    img = rng.normal(0, 1, (ny, nx)) + rng.choice([0, 0, 20]) + rng.choice([0, 0.3, -0.5]) * x + rng.choice([0, 0.4]) * y
    n = int(rng.integers(1, 5))
    labels = list(rng.permutation(np.arange(1, 9))[:n])
    for k, lab in enumerate(labels):
        cx, cy = rng.uniform(0, nx - 1), rng.uniform(0, ny - 1)
        if k == 0:
            cx, cy = {"inside": (rng.uniform(0.35, 0.65) * nx, rng.uniform(0.35, 0.65) * ny), "edge": (rng.choice([0, nx - 1]), rng.uniform(0, ny - 1)),
                      "corner": (rng.choice([0, nx - 1]), rng.choice([0, ny - 1]))}[c["place"]]
        th, q, s = rng.uniform(-3, 3), rng.uniform(0.35, 1), rng.uniform(1, 2.6)
        u, v = (x - cx) * np.cos(th) + (y - cy) * np.sin(th), -(x - cx) * np.sin(th) + (y - cy) * np.cos(th)
        rr = np.hypot(u, v / q)
        img = img + rng.uniform(20, 200) * np.exp(-(rr**2) / 2 / s**2)
        sel = (rr < rng.uniform(1.2, 2) * s) & ((seg == 0) | (k == n - 1))
        if k == 0:
            sel[int(np.clip(np.rint(cy), 0, ny - 1)), int(np.clip(np.rint(cx), 0, nx - 1))] = True
        seg[sel] = lab
    if c["bg"] == "few-pixels":     # (about) ten source-free pixels at most in the cutout
        free = rng.permutation(np.flatnonzero(seg == 0))
        seg.ravel()[free[int(rng.choice([0, 5, 9, 10, 11, 12])):]] = 9
    if rng.random() < 0.3:          # outlying background pixels
        img = img + np.where(rng.random((ny, nx)) < 0.05, rng.choice([30, -25]), 0)
    have = [int(v) for v in np.unique(seg) if v]
    label = int(labels[0]) if labels[0] in have and rng.random() < 0.8 else int(rng.choice(have))
    return np.round(img * 64) / 64, seg, label


def phot(c, rng):
    import petrofit as pf
    from astropy.nddata import CCDData
    from matplotlib import pyplot as plt
    from photutils.segmentation import SegmentationImage, SourceCatalog

    img, seg, label = field(rng, c)
    ny, nx = img.shape
    kind = c["image"]
    if kind == "int":
        img = np.rint(img).astype(rng.choice([np.int64, np.int32, np.int16]))
    elif kind == "float32":
        img = img.astype(np.float32)
    elif kind == "big-endian":
        img = img.astype(">f8")
    segm = SegmentationImage(seg)
    # the catalogue may be of another image (another band)
    other = img if rng.random() < 0.7 else np.round(np.abs(img + rng.normal(0, 9, img.shape)) * 64) / 64
    cat = SourceCatalog(other - min(0, other.min()) + 1.0, segm)
    source = cat[list(segm.labels).index(label)]
    if np.isnan(source.elongation.value):   # a source without a shape
        return phot(c, rng)
    x, y = int(source.maxval_xindex), int(source.maxval_yindex)
    elong, theta = float(source.elongation.value), float(source.orientation.to("rad").value)
    if kind == "nan":
        img = img.copy()
        img[rng.random(img.shape) < 0.06] = np.nan
    data = img
    if kind == "ccd":
        img = CCDData(img, unit="adu")
    r = np.round(rng.gamma(1.5, 2.2, int(rng.integers(1, 4))) * 32) / 32 + 0.25
    if rng.random() < 0.5:
        r = np.sort(r)
    r = r if rng.random() < 0.5 else [float(v) for v in r] if rng.random() < 0.6 else [int(np.ceil(v)) for v in r]
    side = max(1, int(rng.integers(1, 3 + 2 * int(np.ceil(max(r))))))
    if c.get("large"):
        r = np.array([float(rng.integers(3, 9)), float(rng.integers(31, 45)) + 0.5])
        side = 2 * int(r[-1]) - int(rng.integers(0, 5))
    size = {"default": None, "odd": side | 1, "even": side + side % 2, "float": float(side) + float(rng.choice([0, 0.5])), "beyond-frame": 2 * max(nx, ny) + side}[c["size"]]
    err = {"none": None, "some": rng.gamma(2, 2, (ny, nx)), "nan": rng.gamma(2, 2, (ny, nx)), "int": rng.integers(0, 9, (ny, nx))}[c["err"]]
    if c["err"] == "nan":
        err[(seg != label) & ((seg != 0) | (rng.random(seg.shape) < 0.03)) | np.isnan(data.astype(float))] = np.nan
    kw = {}
    typ, sigma = "clip", 3.0
    if c["bg"] != "no":
        kw["bg_sub"] = True
        if c["bg"] in ("clip", "few-pixels"):
            sigma = float(rng.choice([1.5, 2, 2.5, 3, 5]))
            if c["bg"] == "few-pixels" and rng.random() < 0.3:
                typ = "bound"
        elif c["bg"] == "bound":
            typ, sigma = "bound", float(rng.choice([1.5, 3, 10, 40]))
        elif c["bg"] == "unknown":
            typ = str(rng.choice(["median", "", "clips"]))
        if c["bg"] != "clip-3" or rng.random() < 0.4:
            kw["sigma"] = sigma
        if typ != "clip" or rng.random() < 0.5:
            kw["sigma_type"] = typ if rng.random() < 0.7 else typ.upper()
    if size is not None or rng.random() < 0.3:
        kw["cutout_size"] = size
    if err is not None or rng.random() < 0.3:
        kw["error"] = err
    if c["maskbg"] or rng.random() < 0.3:
        kw["mask_background"] = bool(c["maskbg"])
    if c["method"] != "exact" or rng.random() < 0.3:
        kw["method"] = c["method"]
    plot = rng.random() < 0.03
    if plot:
        kw["plot"] = True
        kw["vmax"] = 9
    args = [img, segm, r, err, cat]
    ev = dict(op="phot", before=vf.digest(args), img=vf.enc(data), seg=vf.enc(seg), label=label, x=x, y=y, elong=vf.enc(elong), theta=vf.enc(theta),
              r=vf.enc([float(v) for v in r]), size=vf.enc(size), err=vf.enc(err), maskbg=c["maskbg"], method=c["method"], bg=int(c["bg"] != "no"),
              type=typ, sigma=vf.enc(sigma), case=c)
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        ok, v = vf.raw(pf.source_photometry, source, img, segm, r, **kw)
    plt.close("all")
    ev["ok"] = int(ok)
    if ok:
        ev.update(flux=vf.enc(np.asarray(v[0])), area=vf.enc(np.asarray(v[1])), ferr=vf.enc(np.asarray(v[2])))
    else:
        ev["exc"] = type(v).__name__ + ":" + str(v)[:80].replace("#", "")
    ev["after"] = vf.digest(args)
    return ev


def case(job):
    cs, seed = job
    rng = np.random.default_rng(seed)
    return [phot(c, rng) for c in cs]


def run(ctx):
    import petrofit  # noqa: F401

    cs = vf.records(ctx.model("C03Model", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", what="all combinations of kinds of arguments"), "CASE")
    cs.sort(key=str)
    for rep in range(ctx.n(1, 5)):
        order = [cs[int(k)] for k in ctx.rng.permutation(len(cs))]
        if not ctx.thorough:
            order = order[:len(cs) // 3]
        large = [dict(cs[int(k)], large=1) for k in ctx.rng.permutation(len(cs)) if cs[int(k)]["bg"] not in ("few-pixels", "unknown")
                 and cs[int(k)]["size"] in ("odd", "even", "float")]
        order += large[:ctx.n(10, 60)]
        jobs = [order[i:i + CH] for i in range(0, len(order), CH)]
        ctx.judge("C03", ctx.pmap(case, list(zip(jobs, (int(k) for k in ctx.rng.integers(0, 2**31, len(jobs)))))), "kinds of arguments")
