"""C25: what every figure shows, recorded from the axes it was drawn on."""
import contextlib
import io
import json
import os
import re

import c08
import numpy as np
import vf

DOM = dict(c08.DOM, eta=[0.2, 0.37], tff=[0.99, 0.83])
NUMBER = re.compile(r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def numbers(text):
    return [float(x) for x in NUMBER.findall(text)]


def dump(ax):
    from matplotlib import collections, patches

    lines, segs, marks, ell = [], [], [], []
    for ln in ax.lines:
        x, y = (np.atleast_1d(np.asarray(v, dtype=float)) for v in (ln.get_xdata(), ln.get_ydata()))
        lines.append({"x": x, "y": y})
        if ln.get_marker() not in (None, "None", "", " "):
            marks += [list(p) for p in zip(x, y)]
    for c in ax.collections:
        if isinstance(c, collections.LineCollection):
            segs += [np.asarray(s, dtype=float)[[0, -1]] for s in c.get_segments() if len(s)]
        elif isinstance(c, collections.PathCollection):
            marks += [list(p) for p in np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)]
    for p in ax.patches:
        if isinstance(p, patches.Ellipse):
            a, b, t = p.width / 2, p.height / 2, np.deg2rad(p.angle)
            if b > a:
                a, b, t = b, a, t + np.pi / 2
            ell.append(dict(x=p.center[0], y=p.center[1], a=a, b=b, c=np.cos(t), s=np.sin(t)))
        elif isinstance(p, patches.Circle):
            ell.append(dict(x=p.center[0], y=p.center[1], a=p.radius, b=p.radius, c=1, s=0))
        elif isinstance(p, patches.PathPatch):
            v = np.concatenate(p.get_path().transformed(p.get_patch_transform()).to_polygons())
            c = (v.min(axis=0) + v.max(axis=0)) / 2
            d = np.hypot(*(v - c).T)
            k = d.argmax()
            u = (v[k] - c) / d[k]
            ell.append(dict(x=c[0], y=c[1], a=d[k], b=d.min(), c=u[0], s=u[1]))
    lg = ax.get_legend()
    return vf.enc(dict(lines=lines, segs=segs, marks=marks, ellipses=ell, images=[np.ma.asarray(im.get_array()) for im in ax.images],
                       legend=[numbers(t.get_text()) for t in lg.get_texts()] if lg else [], xlim=list(ax.get_xlim()), ylim=list(ax.get_ylim())))


def look(axes):
    """A digest of the appearance of axes that a call should leave alone."""
    return vf.digest([[len(a.lines), len(a.collections), len(a.patches), len(a.images), len(a.texts), a.get_title(), a.get_xlabel(), a.get_ylabel(),
                       list(a.get_xlim()), list(a.get_ylim()), str(sorted(map(str, a.xaxis.get_tick_params(which="major").items()))),
                       str(sorted(map(str, a.yaxis.get_tick_params(which="minor").items()))), type(a.xaxis.get_minor_locator()).__name__,
                       type(a.yaxis.get_minor_locator()).__name__, a.get_legend() is not None] for a in axes])


def drawn(ev, fn, given=False):
    """Draws on the left (given) or on the right (current) of two axes and records the figure."""
    from matplotlib import pyplot as plt

    plt.close("all")
    fig, axs = plt.subplots(1, 2)
    target, other = (axs[0], axs[1]) if given else (axs[1], axs[0])
    plt.sca(axs[1])
    ev["others0"] = str((look([other]), 1))
    ok, r = vf.raw(lambda: fn(target))
    ev["ok"] = int(ok)
    if ok:
        ev["ret"] = int(r is None or r is target)
        ev["others1"] = str((look([other]), len(plt.get_fignums())))
        ev["axes"] = dump(target)
    else:
        ev["exc"] = type(r).__name__ + ": " + str(r)[:80].replace("#", "")
    plt.close("all")
    return ev


def history(a):
    k, hist, seed = a
    rng = np.random.default_rng(seed)
    d = c08.datasets()[k]
    s0 = {x: DOM[x][0] for x in DOM}
    o = c08.build(d, s0)
    tr = [{"op": "new", "data": k, "s": {x: vf.num(v) for x, v in s0.items()}, "ok": 1}]
    for e in hist:
        ev = dict(e)
        if e["op"] == "set":
            f, v = e["field"], DOM[e["field"]][e["val"]]
            ev["val"] = vf.num(v)
            ok, _ = vf.raw(lambda: setattr(o, c08.ATTR[f], c08.KIND(d, v) if f == "kind" else c08.NUM(d, v) if f == "num" else v))
            ev["ok"] = int(ok)
        elif e["op"] == "overlay":
            pos = [float(rng.integers(0, 9)), float(rng.uniform(0, 9))]
            elong, theta = float(rng.choice([1, 1.3, 2.5])), float(rng.choice([0, 0.4, -1.1, 2.0]))
            ev.update(pos=vf.enc(pos), elong=vf.enc(elong), cs=vf.enc([np.cos(theta), np.sin(theta)]))
            kw = {} if e["legend"] else {"color": "w", "lw": 2}
            drawn(ev, lambda ax: o.imshow(pos, elong, theta, **kw))
        else:
            kw = dict(plot_r=bool(e["radii"]), show_legend=bool(e["legend"]), radius_unit=None if e["unit"] == "none" else e["unit"])
            if e["radii"] and rng.random() < 0.3:
                del kw["plot_r"]
            if rng.random() < 0.2:
                kw.update(ax_fontsize=9, tick_fontsize=7, legend_fontsize=6, title="a title")
            if rng.random() < 0.3:
                kw["err_alpha"] = [None, 0, 0.5][int(rng.integers(3))]
            fn = o.plot if e["op"] == "profile" else o.plot_cog
            drawn(ev, lambda ax: fn(**kw, **({"ax": ax} if e["given"] else {})), bool(e["given"]))
        tr.append(ev)
    return tr


def fresh_entry(a):
    k, s = a
    o = c08.build(c08.datasets()[k], s)
    ok, v = vf.raw(lambda: {x: getattr(o, x) for x in (
        "r_list", "flux_list", "flux_err", "r_petrosian", "r_petrosian_err", "r_half_light", "half_flux", "r_total_flux", "total_flux", "eta")})
    v.update(profile=o.petrosian_list, profile_err=o.petrosian_err, r_20=o.fraction_flux_to_r(0.2), r_80=o.fraction_flux_to_r(0.8))
    return {"data": k, "s": {x: vf.num(y) for x, y in s.items()}, "v": vf.enc(v)}


def field(rng, n):
    """A small galaxy with a companion, and its catalogue."""
    import petrofit as pf
    from astropy.modeling import models

    y, x = np.mgrid[:n, :n]
    img = sum(models.Gaussian2D(a, *c, s, s * e, theta=t)(x, y) for a, c, s, e, t in (
        (100, rng.uniform(n * 0.35, n * 0.6, 2), 2.4, 1.5, rng.uniform(-1, 1)), (40, [n - 5, 5], 1.5, 1.1, 0)))
    img = img + rng.normal(0, 0.2, img.shape)
    cat, segm, deb = pf.make_catalog(img, threshold=3.0, npixels=8, deblend=True, plot=False)
    return img, cat, segm, deb


def single(a):
    import petrofit as pf
    from matplotlib import pyplot as plt
    from petrofit.photometry import radial_elliptical_aperture

    what, seed = a
    rng = np.random.default_rng(seed)
    ev = {"op": what}
    nx, ny = (int(v) for v in rng.integers(9, 16, 2))
    img = rng.integers(-5, 60, (ny, nx)).astype(float if rng.random() < 0.7 else int)
    pos = [float(v) for v in rng.uniform(3, 8, 2)]
    elong, theta = float(rng.choice([1, 1.4, 3])), float(rng.choice([0, 0.4, -1.1, 2.0]))
    geom = dict(pos=vf.enc(pos), elong=vf.enc(elong), cs=vf.enc([np.cos(theta), np.sin(theta)]))
    if what == "target":
        size = [None, int(rng.integers(3, 30))][int(rng.random() < 0.6)]
        ev.update(img=vf.enc(img), size=size or max(nx, ny), **geom)
        kw = {} if size is None else {"size": size}
        return drawn(ev, lambda ax: pf.plot_target(img, pos, **kw))
    if what == "apertures":
        rs = [float(v) for v in rng.uniform(1, 6, rng.integers(0, 4))]
        show = bool(rng.random() < 0.6)
        ev.update(img=vf.enc(img) if show else [], radiuses=vf.enc(rs), **geom)
        ap = [radial_elliptical_aperture(pos, r, elong, theta) for r in rs]
        return drawn(ev, lambda ax: pf.plot_apertures(img if show else None, ap))
    if what == "radial":
        rs = [float(v) for v in rng.permutation(np.round(rng.uniform(0.5, 6, rng.integers(1, 5)), 2))]
        mask = None if rng.random() < 0.5 else rng.random((ny, nx)) < 0.8
        ev.update(img=vf.enc(img), radiuses=vf.enc(rs), **geom)
        return drawn(ev, lambda ax: (pf.radial_photometry(img, pos, rs, mask=mask, elong=elong, theta=theta, plot=True), None)[1])
    if what in ("segments", "residual"):
        from photutils.segmentation import SegmentationImage

        lab = np.zeros((ny, nx), int)
        for k in range(int(rng.integers(1, 4))):
            j, i = int(rng.integers(0, ny - 3)), int(rng.integers(0, nx - 3))
            lab[j:j + 3, i:i + 3] = [1, 2, 7][k]
        segm = SegmentationImage(lab)
        if what == "segments":
            show = bool(rng.random() < 0.6)
            ev.update(img=vf.enc(img) if show else [], segm=vf.enc(lab))
            return drawn(ev, lambda ax: pf.plot_segments(segm, img if show else None))
        ev.update(img=vf.enc(img), segm=vf.enc(lab))
        return drawn(ev, lambda ax: pf.plot_segment_residual(segm, img))
    plt.close("all")
    if what == "source":
        img, cat, segm, deb = field(rng, 25)
        plt.close("all")
        src = cat[int(rng.integers(len(cat)))]
        rs = [float(v) for v in sorted(rng.uniform(1, 6, 4))]
        elong, theta = float(np.asarray(src.elongation)), float(src.orientation.to("rad").value)
        ok, r = vf.raw(lambda: pf.source_photometry(src, img, deb, rs, plot=True, bg_sub=bool(rng.random() < 0.5)))
        ev.update(radiuses=vf.enc(rs), elong=vf.enc(elong), cs=vf.enc([np.cos(theta), np.sin(theta)]))
        if ok:
            figs = [plt.figure(k) for k in plt.get_fignums()]
            ev.update(flux=vf.enc(r[0]), panels=[dump(ax) for f in figs for ax in f.axes][:4])
    elif what == "fit":
        from astropy.modeling import models

        m = models.Gaussian2D(30.0, 5, 6, 2, 3) if rng.random() < 0.5 else models.Sersic2D(5, 3, 1, 4, 4)
        if rng.random() < 0.4:
            img = np.array(img, dtype=float)
            img[2, 3] = np.nan
        ctr = [None, (nx // 2 + 2, ny // 2 - 1)][int(rng.random() < 0.4)]
        ok, r = vf.raw(pf.plot_fit, m, img, cbar=bool(rng.random() < 0.5), **({} if ctr is None else {"center": ctr}))
        ev["img"] = vf.enc(img)
        if ok:
            ev.update(panels=[dump(ax) for ax in r[0]], model=vf.enc(pf.model_to_image(m, (nx, ny), **({} if ctr is None else {"center": ctr}))))
    else:
        import c10

        d, s = c10.profile(rng)
        s.update(eta=0.2, epsilon_fraction=0.99)
        m = c10.measured(d, s)
        while not np.all(np.isfinite(m)):
            d, s = c10.profile(rng)
            s.update(eta=0.2, epsilon_fraction=0.99)
            m = c10.measured(d, s)
        grid = c10.make_grid(rng, [m])
        axs = list(plt.subplots(1, 3)[1]) if rng.random() < 0.5 else None
        n0 = len(plt.get_fignums())
        enforce = bool(rng.random() < 0.5)
        ok, r = vf.raw(lambda: pf.PetrosianCorrection(grid, enforce_range=enforce).plot_correction(c10.build(d, s), **({} if axs is None else {"axs": axs})))
        ev.update(m=vf.enc(m), grid=[[vf.enc(float(row[k])) for k in c10.KEYS2] for row in grid])
        if ok:
            ev["panels"] = [dump(ax) for ax in r[1]]
            ok_axes = axs is None or (all(p is q for p, q in zip(r[1], axs)) and len(plt.get_fignums()) == n0)
            ev["ret"] = int(ok_axes)
    ev["ok"] = int(ok)
    if not ok:
        ev["exc"] = type(r).__name__ + ": " + str(r)[:80].replace("#", "")
    ev.setdefault("ret", 1)
    ev["others0"] = ev["others1"] = "0"
    plt.close("all")
    return ev


def singles(a):
    what, seeds = a
    s0 = {x: vf.num(DOM[x][0]) for x in DOM}
    with contextlib.redirect_stdout(io.StringIO()):
        return [{"op": "new", "data": 0, "s": s0, "ok": 1}] + [single((what, int(s))) for s in seeds]


def run(ctx):
    import itertools

    hists = vf.records(ctx.model("C25Model", "CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nPROPERTY Pure\nCHECK_DEADLOCK FALSE\n" % 2,
                                 what="figures between changes of settings"), "CASE")
    hists.sort(key=str)
    nd = len(c08.datasets())
    pick = [hists[int(i)] for i in ctx.rng.permutation(len(hists))]
    extra = []
    for _ in range(ctx.n(60, 1200)):     # longer histories
        h, cur = [], {x: 0 for x in DOM}
        for _ in range(int(ctx.rng.integers(2, 6))):
            f = str(ctx.rng.choice(list(DOM)))
            cur[f] = 1 - cur[f]
            h.append({"op": "set", "h": 1, "field": f, "val": cur[f]})
            if ctx.rng.random() < 0.5:
                h.append(pick[int(ctx.rng.integers(len(pick)))][-1])
        extra.append(h + [pick[int(ctx.rng.integers(len(pick)))][-1]])
    hs = pick[:ctx.n(450, 100000)] + extra
    seeds = ctx.rng.integers(0, 2**31, len(hs))
    traces = ctx.pmap(history, [(i % nd, h, int(s)) for i, (h, s) in enumerate(zip(hs, seeds))])
    kinds = ("target", "apertures", "radial", "segments", "residual", "source", "fit", "correction")
    jobs = [(w, ctx.rng.integers(0, 2**31, 6)) for w in kinds for _ in range(ctx.n(3, 40))]
    traces += ctx.pmap(singles, jobs)
    ents = [(k, dict(eta=a, eps=b, epsf=c, tff=d, kind=i, num=j)) for k in range(nd)
            for a, b, c, d, i, j in itertools.product(*(DOM[x] for x in ("eta", "eps", "epsf", "tff", "kind", "num")))]
    fresh = ctx.pmap(fresh_entry, ents)
    path = os.path.join(ctx.dir, "fresh.json")
    with open(path, "w") as f:
        json.dump(fresh, f)
    ctx.judge("C25", traces, "figures", env={"VF_FRESH": path})
