"""C24: synthetic galaxies measured end to end, and the same images moved and brightened."""
import contextlib
import io
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context

import numpy as np
import vf

GRID_N, GRID_RE = [0.5, 1.0, 1.5, 2.0], [8, 10, 12]


def row(job):
    import petrofit as pf

    n, re = job
    with contextlib.redirect_stdout(io.StringIO()):
        ok, t = vf.raw(pf.generate_petrosian_sersic_correction, None, r_eff_list=[re], n_list=[n], oversample=("x_0", "y_0", 10, 20))
    return (t.colnames, [float(t[c][0]) for c in t.colnames]) if ok else None


def grid():
    from astropy.table import Table

    with ProcessPoolExecutor(8, mp_context=get_context("fork")) as ex:
        got = list(ex.map(row, [(n, r) for n in GRID_N for r in GRID_RE]))
    if any(g is None for g in got):
        return None
    return Table(rows=[g[1] for g in got], names=got[0][0])


def report(p):
    r20, r80, c = p.concentration_index()
    return dict(eta=p.eta, eps=p.epsilon, epsf=p.epsilon_fraction, tff=p.total_flux_fraction, rp=p.r_petrosian, rhalf=p.r_half_light,
                rtot=p.r_total_flux, r20=p.fraction_flux_to_r(0.2), r80=p.fraction_flux_to_r(0.8), r90=p.fraction_flux_to_r(0.9),
                c2080=p.c2080, c5090=p.c5090, tot=p.total_flux, half=p.half_flux)


def galaxy(seed):
    import petrofit as pf
    from astropy.modeling.models import Sersic2D

    rng = np.random.default_rng(seed)
    corr = int(rng.random() < 0.5 and GRID is not None)
    e = float(rng.choice([0, 0.1, 0.25, 0.5, 0.6, 0.7]))
    if corr:
        n, re = float(rng.choice(GRID_N)), float(rng.choice(GRID_RE))
    else:
        n, re = float(rng.choice([0.5, 0.7, 1, 1.5, 2, 2.5, 3, rng.uniform(0.5, 3)])), float(rng.uniform(6, 12))
    if re * (1 - e) < 3:
        e = 0.5
    th, amp = float(rng.uniform(-3.1, 3.1)), float(10 ** rng.uniform(-2, 3))
    R = int(re * (5 if n < 1.2 else 7 if n < 2.3 else 9))
    if corr:    # up to beyond the radius with 99% of the light
        R = int(re * {0.5: 4, 1: 5.5, 1.5: 7.5, 2: 9.5}[n])
    nx, ny = 2 * R + 4 + int(rng.integers(0, 20)), 2 * R + 4 + int(rng.integers(0, 20))
    x0, y0 = [float(v // 2 + rng.choice([0, 0.25, 0.5, rng.uniform(-0.5, 0.5)])) for v in (nx, ny)]
    s = 2.0 if corr else float(rng.choice([1, 1.25, 2]))
    r = np.arange(s, R, s) + (0.1 if s != 1.25 else 0.03)
    kw = dict(eta=float(rng.choice([0.2, 0.2, 0.3, 0.5])), epsilon=float(rng.choice([2, 2, 1.5, 1])), epsilon_fraction=float(rng.choice([0.99, 0.99, 0.9])))
    kw["total_flux_fraction"] = float(rng.choice([f for f in (0.99, 0.9, 0.8) if f <= kw["epsilon_fraction"]]))
    if corr:
        kw = dict(eta=float(rng.choice([0.2, 0.2, 0.3])))
    ev = dict(op="galaxy", g=vf.enc(dict(amp=amp, re=re, n=n, e=e, th=th, x0=x0, y0=y0)), r=vf.enc(r), corr=corr, size=[nx, ny])

    def measure():
        m = pf.PSFConvolvedModel2D(Sersic2D(amp, re, n, x0, y0, e, th), oversample=("x_0", "y_0", 14, 15))
        img = pf.model_to_image(m, (nx, ny))
        f, a, _ = pf.radial_photometry(img, (x0, y0), r, elong=pf.ellip_to_elong(e), theta=th)
        p = pf.Petrosian(r, a, f, **kw)
        out = dict(f=f, a=a, pet=p.petrosian_list, p=report(p), ampr=pf.get_amplitude_at_r(re, img, x0, y0, e, th))
        return p, out

    ok, v = vf.raw(measure)
    ev["ok"] = int(ok)
    if not ok:
        ev["exc"] = repr(v)[:150].replace("#", "")
        return [ev]
    p, out = v
    ev.update(vf.enc(out))
    if corr:
        def correct():
            pc = pf.PetrosianCorrection(GRID, enforce_range=False)
            c = pc.correct(p)
            return dict(rhalf=c.r_half_light, rtot=c.r_total_flux, tot=c.total_flux, n=pc.estimate_n(p), eps=c.epsilon)

        ok, v = vf.raw(correct)
        ev["cok"], ev["c"] = int(ok), vf.enc(v) if ok else repr(v)[:150].replace("#", "")
    return [ev]


def measure(img, thr, r, kwargs):
    import petrofit as pf
    from astropy.modeling.models import Sersic2D

    h, w = img.shape
    cat, segm, segd = pf.make_catalog(img, threshold=thr, wcs=None, deblend=False, npixels=9, plot=False)
    segd = segm if segd is None else segd
    order = pf.order_cat(cat, key="area", reverse=True)
    src = cat[order[0]]
    px, py = pf.get_source_position(src)
    elong, ellip, th = pf.get_source_elong(src), pf.get_source_ellip(src), pf.get_source_theta(src)
    f, a, _ = pf.source_photometry(src, img, segd, r, **kwargs)
    p = pf.Petrosian(r, a, f)
    pc = pf.PetrosianCorrection(GRID, enforce_range=False)
    c = pc.correct(p)
    re = p.r_half_light if np.isfinite(p.r_half_light) else r[len(r) // 4]
    ampr = pf.get_amplitude_at_r(re, img, float(src.xcentroid), float(src.ycentroid), ellip, th)
    lone = pf.masked_segm_image(src, img, segd, mask_background=False)
    lone = np.array(getattr(lone, "data", lone), dtype=float)
    start = Sersic2D(amplitude=ampr, r_eff=re, n=1.3, x_0=float(px), y_0=float(py), ellip=ellip, theta=th,
                     bounds=pf.get_default_sersic_bounds())
    m, _ = pf.fit_model(lone, start, maxiter=10000, epsilon=1.4901161193847656e-08, acc=1e-9)
    # a Sersic model with a negative ellipticity is none; its angle is modulo pi
    return dict(w=w, h=h, nsrc=len(cat), segarea=float(src.area.value), segflux=float(src.segment_flux), peak=float(src.max_value), px=float(px), py=float(py),
                x=float(src.xcentroid), y=float(src.ycentroid), elong=float(elong), ellip=float(ellip), th=float(th), f=list(map(float, f)), a=list(map(float, a)),
                rp=p.r_petrosian, rhalf=p.r_half_light, rtot=p.r_total_flux, c2080=p.c2080, c5090=p.c5090, tot=p.total_flux, half=p.half_flux,
                ceps=c.epsilon, crhalf=c.r_half_light, crtot=c.r_total_flux, cn=pc.estimate_n(p), ampr=float(ampr),
                fx=m.x_0.value, fy=m.y_0.value, fth=m.theta.value, famp=m.amplitude.value, fre=m.r_eff.value, fn=m.n.value, fe=m.ellip.value)


def walk(job):
    from astropy.modeling.models import Sersic2D

    word, seed = job
    rng = np.random.default_rng(seed)
    n, re, e = float(rng.uniform(0.6, 1.9)), float(rng.uniform(6, 9)), float(rng.uniform(0.2, 0.55))
    th, amp = float(rng.uniform(-3, 3)), float(rng.uniform(1, 50))
    R = int(5.6 * re)
    pad = R + 8 + 4 * len(word)
    w, h = int(rng.integers(2 * pad + 1, 2 * pad + 24)), int(rng.integers(2 * pad + 1, 2 * pad + 24))
    x0, y0 = float(rng.integers(pad, w - pad) + rng.uniform(-0.4, 0.4)), float(rng.integers(pad, h - pad) + rng.uniform(-0.4, 0.4))
    alone = int(rng.random() < 0.6)
    models = [Sersic2D(amp, re, n, x0, y0, e, th)]
    if not alone:       # neighbours
        for _ in range(int(rng.integers(1, 3))):
            models.append(Sersic2D(amp / 2, 1.5, 1, x0 + 2.6 * re * rng.choice([-1, 1]), y0 + rng.uniform(-2.6, 2.6) * re, 0.3, 1.0))

    tilt = [0, 0, 0]
    thr = float(np.round(amp * rng.uniform(0.02, 0.08) * 2**20) / 2**20)
    kwargs = {}
    if rng.random() < 0.3:
        kwargs["mask_background"] = False
    if rng.random() < 0.3:
        kwargs["cutout_size"] = int(2 * R + rng.integers(6, 9))
    flat = ["T", "S", "G"]
    if rng.random() < 0.6 and not set(word) - set(flat):
        # (the plane of an even cutout is not that of its mirror image)
        kwargs.update(bg_sub=True, cutout_size=int(2 * R + 10))
        if rng.random() < 0.6:
            alone = 0
            tilt = thr * rng.uniform(-0.3, 0.3, 3)

    def scene(dx, dy):
        yy, xx = np.mgrid[:h, :w]
        im = sum(m(xx - dx, yy - dy) for m in models) + tilt[0] + tilt[1] * (xx - dx) / w + tilt[2] * (yy - dy) / h
        return np.round(im * 2.0**22) / 2.0**22

    r = np.arange(1, R, float(rng.choice([1, 1.5, 2])))
    img, sh = scene(0, 0), [0, 0]
    ops = []
    step = vf.num(float(3 * (r[-1] - r[0]) / 5000 + 1e-9))
    out = []

    def add(op, im, t, **kw):
        ev = dict(op=op, step=step, case=word, **kw)
        ok, v = vf.raw(measure, im, t, r, kwargs)
        ev["ok"] = int(ok)
        if ok:
            ev["m"] = vf.enc(v)
        else:
            ev["exc"] = repr(v)[:150].replace("#", "")
        out.append(ev)
        return ok

    if not add("base", img, thr, alone=alone, g=vf.enc(dict(amp=amp, re=re, n=n, x0=x0, y0=y0, e=e, th=th))):
        return out
    for o in word:
        if o == "T":
            img = np.ascontiguousarray(img.T) if rng.random() < 0.7 else img.T
            kw = {}
        elif o == "F":
            img = img[:, ::-1]
            kw = {}
        elif o == "S":
            # move by whole pixels; what leaves the frame on one side comes in as empty sky on the other
            dx, dy = int(rng.integers(-4, 5)), int(rng.integers(-4, 5))
            new = np.zeros_like(img)
            hh, ww = img.shape
            new[max(0, dy):hh + min(0, dy), max(0, dx):ww + min(0, dx)] = img[max(0, -dy):hh + min(0, -dy), max(0, -dx):ww + min(0, -dx)]
            img, kw = new, dict(dx=dx, dy=dy)
        else:
            k = float(rng.choice([2, 0.5, 8, 3, 10, 1024]))
            img, thr, kw = img * k, thr * k, dict(k=vf.num(k))
        if not add(o, img, thr, **kw):
            break
    return out


GRID = None


def run(ctx):
    global GRID
    import petrofit  # noqa: F401

    words = vf.records(ctx.model("C24Model", "CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANT Inside\nINVARIANT Unit\nINVARIANT Twice\nINVARIANT Quarter\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.n(3, 4),
                                 what="moves of an image"), "CASE")
    words = sorted({tuple(w) for w in words})
    GRID = grid()
    seeds = [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(150, 2000))]
    ctx.judge("C24", ctx.pmap(galaxy, seeds), "galaxies of known light")
    jobs = [(list(words[int(k)]), int(s)) for k, s in zip(np.concatenate([ctx.rng.permutation(len(words)) for _ in range(ctx.n(1, 6))]), ctx.rng.integers(0, 2**31, 6 * len(words)))]
    ctx.judge("C24", ctx.pmap(walk, jobs), "moved and brightened images")
