"""C04: detection patterns, deblending, catalogues, orderings and accessors."""
import numpy as np
import vf

CH = 40


def maps(s):
    return vf.enc(np.array(s.data)) if s is not None else "None"


def seg_event(img, thr, npix):
    from petrofit.segmentation import make_segments

    args = [img, thr]
    ev = dict(op="segments", before=vf.digest(args), img=vf.enc(img), thr=vf.enc(thr), npix=npix)
    ok, s = vf.raw(make_segments, img, npixels=npix, threshold=thr)
    ev["ok"] = int(ok)
    if ok:
        ev["seg"] = maps(s)
    else:
        ev["exc"] = type(s).__name__ + ":" + str(s)[:80].replace("#", "")
    ev["after"] = vf.digest(args)
    return ev, s


def pattern(job):
    cs, seed = job
    rng = np.random.default_rng(seed)
    tr = []
    for c in cs:
        a = np.array(c["above"], bool).reshape(c["ny"], c["nx"])
        thr = float(rng.integers(-3, 4))
        if rng.random() < 0.4:
            thr = rng.integers(-9, 9, a.shape) / 4.0
        img = np.where(a, thr + rng.choice([2.0**-40, 0.5, 7], a.shape), thr - rng.choice([0, 0.25, 3], a.shape))
        tr.append(seg_event(img, thr, c["npix"])[0])
    return tr


def crowded(seed):
    """Fields of very many small sources."""
    rng = np.random.default_rng(seed)
    ny, nx = int(rng.integers(20, 36)), int(rng.integers(20, 36))
    img = np.where(rng.random((ny, nx)) < rng.uniform(0.08, 0.3), 5 + rng.random((ny, nx)), rng.random((ny, nx)))
    return [seg_event(img, 3.0, int(rng.choice([1, 1, 2, 4])))[0]]


def blobs(rng):
    ny, nx = int(rng.integers(8, 20)), int(rng.integers(8, 20))
    y, x = np.mgrid[:ny, :nx]
    img = np.zeros((ny, nx))
    for _ in range(int(rng.integers(1, 6))):
        th, q, s = rng.uniform(0, 3.2), rng.uniform(0.4, 1), rng.uniform(0.8, 2.5)
        dx, dy = x - rng.uniform(0, nx), y - rng.uniform(0, ny)
        u, v = dx * np.cos(th) + dy * np.sin(th), -dx * np.sin(th) + dy * np.cos(th)
        img += rng.uniform(3, 60) * np.exp(-(u**2 + (v / q) ** 2) / 2 / s**2)
    img = img + rng.normal(0, 0.3, img.shape)
    return np.round(img * 256) / 256


def cat_events(seed):
    import petrofit as pf
    from astropy.nddata import CCDData, Cutout2D
    from astropy.wcs import WCS
    from matplotlib import pyplot as plt

    rng = np.random.default_rng(seed)
    tr = []
    data = blobs(rng)
    if rng.random() < 0.2:
        data = data.astype(np.float32)
    form = str(rng.choice(["array", "ccd", "cutout"]))
    image = data if form == "array" else CCDData(data, unit="adu") if form == "ccd" else Cutout2D(data, (data.shape[1] // 2, data.shape[0] // 2), data.shape)
    if form == "cutout":
        data = image.data
    thr = float(rng.uniform(1, 5)) if rng.random() < 0.6 else np.round(rng.uniform(1, 4, data.shape) * 64) / 64
    npix = int(rng.integers(1, 7))
    s, seg = seg_event(data, thr, npix)
    tr.append(s)
    if not s["ok"] or seg is None:
        return tr
    kw = {}
    for k, v in (("nlevels", int(rng.integers(2, 40))), ("contrast", float(rng.choice([0, 1e-3, 0.01, 0.1, 0.5, 1])))):
        if rng.random() < 0.6:
            kw[k] = v
    before = vf.digest([data, seg])
    ok, d = vf.raw(pf.deblend_segments, data, seg, npixels=npix, **kw)
    ev = dict(op="deblend", before=before, ok=int(ok), seg=s["seg"])
    if ok:
        ev["deb"] = maps(d)
    ev["after"] = vf.digest([data, seg])
    tr.append(ev)
    deb2 = maps(d) if ok else "?"
    debl = int(rng.random() < 0.6)
    ckw = dict(kw, plot=bool(rng.random() < 0.06))
    if not debl or rng.random() < 0.5:
        ckw["deblend"] = bool(debl)
    if rng.random() < 0.2:
        w = WCS(naxis=2)
        w.wcs.ctype, w.wcs.cdelt, w.wcs.crval = ["RA---TAN", "DEC--TAN"], [-1e-5, 1e-5], [40, 5]
        ckw["wcs"] = w
    args = [np.array(data), thr]
    ev = dict(op="catalog", before=vf.digest(args), img=vf.enc(data), thr=vf.enc(thr), npix=npix, deblend=debl, deb2=deb2)
    args = [data, thr]
    ok, r = vf.raw(pf.make_catalog, image, thr, npixels=npix, **ckw)
    plt.close("all")
    ev["ok"] = int(ok)
    ev["after"] = vf.digest(args)
    if not ok:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
        tr.append(ev)
        return tr
    cat, sg, db = r
    ev.update(seg=maps(sg), deb=maps(db), used=vf.enc(np.array(cat._segment_img.data)) if hasattr(cat, "_segment_img") else maps(db if debl else sg))
    ok, rows = vf.raw(read_rows, cat)
    ev["rows"] = rows if ok else [{"error": str(rows)[:60].replace("#", "")}]
    tr.append(ev)
    tr.append(order_event(cat, rng))
    return tr


def order_event(cat, rng):
    import petrofit as pf

    key = str(rng.choice(["area", "area", "max_value", "min_value", "segment_flux", "label", "xcentroid", "ycentroid", "kron_flux", "semimajor_sigma"]))
    col = np.array(cat.to_table()[key], dtype=float)
    if np.isnan(col).any():
        key = "area"
        col = np.array(cat.to_table()[key], dtype=float)
    okw = {}
    rev = int(rng.random() < 0.6)
    if not rev or rng.random() < 0.5:
        okw["reverse"] = bool(rev)
    if key != "area" or rng.random() < 0.5:
        okw["key"] = key
    b = vf.digest(cat)
    ok, o = vf.raw(pf.order_cat, cat, **okw)
    ev = dict(op="order", before=b, ok=int(ok), col=vf.enc(col), reverse=rev, by=key)
    if ok:
        ev["got"] = vf.enc([int(k) for k in o])
    else:
        ev["exc"] = type(o).__name__ + ":" + str(o)[:80].replace("#", "")
    ev["after"] = vf.digest(cat)
    return ev


def many(seed):
    """Orderings of catalogues of many sources with close or equal values."""
    from photutils.segmentation import SegmentationImage, SourceCatalog

    rng = np.random.default_rng(seed)
    n = int(rng.integers(1, 40))
    lab = rng.permutation(np.arange(1, n + 1) * int(rng.integers(1, 3)))
    seg = np.zeros((3 * ((n + 5) // 6) + 1, 19), int)
    for k, v in enumerate(lab):
        y, x = 3 * (k // 6), 3 * (k % 6)
        seg[y:y + int(rng.integers(1, 3)), x:x + int(rng.integers(1, 3))] = v
    img = 10 + rng.integers(0, 40, seg.shape) / 16
    if rng.random() < 0.3:
        img -= 12
    elif rng.random() < 0.4:    # values that single precision can not tell apart
        img = 1000 + rng.integers(0, 40, seg.shape) / 2.0**30
    cat = SourceCatalog(img, SegmentationImage(seg))
    return [order_event(cat, rng) for _ in range(5)]


def val(x):
    return vf.enc(float(np.ravel(getattr(x, "value", x))[0]))


def read_rows(cat):
    from petrofit.segmentation import get_source_ellip, get_source_elong, get_source_position, get_source_theta

    t = cat.to_table(columns=["label", "area", "segment_flux", "max_value", "maxval_xindex", "maxval_yindex", "elongation", "ellipticity", "orientation"])
    rows = []

    def acc(s):
        x, y = get_source_position(s)
        return dict(x=val(x), y=val(y), elong=val(get_source_elong(s)), ellip=val(get_source_ellip(s)), theta=val(get_source_theta(s)))

    for k, s in enumerate(cat):
        r = t[k]
        ok1, a = vf.raw(acc, s)
        ok2, b = vf.raw(acc, r)
        rows.append(dict(label=val(r["label"]), area=val(r["area"]), flux=val(r["segment_flux"]), max=val(r["max_value"]),
                         x=val(r["maxval_xindex"]), y=val(r["maxval_yindex"]), elongation=val(r["elongation"]), ellipticity=val(r["ellipticity"]),
                         orientation=val(r["orientation"]), acc=a if ok1 else "raised", row=b if ok2 else "raised"))
    return rows


def run(ctx):
    import petrofit  # noqa: F401

    cs = vf.records(ctx.model("C04Model", "CONSTANTS MaxPix = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Connected\nCHECK_DEADLOCK FALSE\n"
                              % ctx.n(9, 12), what="all detection patterns"), "CASE")
    cs.sort(key=str)
    jobs = [cs[i:i + CH] for i in range(0, len(cs), CH)]
    ctx.judge("C04", ctx.pmap(pattern, list(zip(jobs, (int(k) for k in ctx.rng.integers(0, 2**31, len(jobs)))))), "all detection patterns")
    ctx.judge("C04", ctx.pmap(cat_events, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(160, 2500))]), "random fields")
    ctx.judge("C04", ctx.pmap(many, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(60, 600))]), "orderings of large catalogues")
    ctx.judge("C04", ctx.pmap(crowded, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(16, 100))]), "crowded fields")
