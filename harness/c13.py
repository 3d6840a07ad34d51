"""C13: images of PSF-convolved models for every kind of sampling configuration."""
import numpy as np
import lights
import vf

NAMES = {"gauss": ("x_mean", "y_mean"), "moffat": ("x_0", "y_0"), "sersic": ("x_0", "y_0")}


def psf_of(shape, rng):
    if not shape[0]:
        return None
    p = rng.integers(0, 32, shape).astype(float)
    p[tuple(rng.integers(0, s) for s in shape)] += 16
    q = 2.0 ** np.ceil(np.log2(p.sum()))
    p[tuple(rng.integers(0, s) for s in shape)] += q - p.sum()
    return p / q * float(rng.choice([1, 1, 1, 0.5, 2]))     # normalised or not


def half(v, rng):
    """Now and then a coordinate between two pixels, which rounds to the even one."""
    return np.floor(v) + 0.5 if rng.random() < 0.2 else v


def job(a):
    import petrofit as pf
    from petrofit.modeling import model_to_image
    from scipy.ndimage import rotate

    c, seed = a
    rng = np.random.default_rng(seed)
    budget = {True: 7, False: 5}[c["os"]["f"] <= 3]
    nx, ny = (int(v) for v in rng.integers(2, budget + 1, 2))
    named = c["os"]["t"] == "named"
    kinds = ("gauss", "moffat", "sersic", "sum") if named else ("poly", "moffat", "gauss", "sersic", "sum")
    ox, oy = (int(v) for v in rng.integers(-6, 30, 2)) if c["how"] != "image" else (0, 0)
    if c["how"] == "centred":
        ctr = (ox, oy)
        ox, oy = ox - nx // 2, oy - ny // 2
    kw = dict(x0=ox + 2.0, y0=oy + 2.0, spread=4.0)
    kind, p = lights.draw(rng, kinds, **kw)
    if kind == "sum" and named:
        g = str(rng.choice(["gauss", "moffat", "sersic"]))
        p = [(g, lights.params(g, rng, **kw)), p[1] if p[1][0] != "poly" else ("gauss", lights.params("gauss", rng, **kw))]
    which = int(rng.integers(2)) if kind == "sum" and p[1][0] != "poly" else 0     # sub-model the window follows
    first = p[which] if kind == "sum" else (kind, p)
    frac = 0.0
    if c["os"]["t"] in ("none", "int") and c["how"] in ("float", "subset") and rng.random() < 0.5:
        frac = float(rng.choice([0.25, 0.5, 0.3, 0.7, 0.123]))
    osv = {"t": "none", "f": 1, "len": 0, "cx": 0, "cy": 0}
    o, named_at = None, None
    L = int(rng.integers(1, 8))
    if c["os"]["t"] == "int":
        o = c["os"]["f"]
        osv = dict(osv, t="int", f=o)
    elif c["os"]["t"] == "win":
        cx, cy = (half(lights.dyadic(rng, b - 4, b + n + 4), rng) for b, n in ((ox, nx), (oy, ny)))
        if rng.random() < 0.4:
            cx, cy = int(np.floor(cx)), int(np.floor(cy))
        o = (cx, cy, L, c["os"]["f"])
        osv = {"t": "win", "f": c["os"]["f"], "len": L, "cx": cx, "cy": cy}
    elif named:
        n1, n2 = NAMES[first[0]]
        suf = "_%d" % which if kind == "sum" else ""
        i = {"gauss": (1, 2), "moffat": (1, 2), "sersic": (3, 4)}[first[0]]
        for k in i:
            first[1][k] = half(first[1][k], rng)
        mix = rng.integers(3)
        named_at = (n1 + suf, n2 + suf, i, first[0])
        a0 = n1 + suf if mix != 1 else first[1][i[0]]
        a1 = n2 + suf if mix != 2 else first[1][i[1]]
        o = (a0, a1, L, c["os"]["f"])
        osv = {"t": "win", "f": c["os"]["f"], "len": L, "cx": first[1][i[0]], "cy": first[1][i[1]]}
    psf = psf_of(c["psf"], rng)
    pa = 0 if c["pa"] == 0 else 90 * c["pa"] if c["pa"] < 4 else float(rng.choice([30, -17.5, 45, 211]))
    used = psf
    if psf is not None and c["pa"] == 4:
        used = rotate(psf, pa, reshape=False)
    ev = {"op": "image", "m": lights.describe(kind, p), "psf": vf.enc(used if used is not None else []),
          "turns": c["pa"] if c["pa"] < 4 and psf is not None else 0, "os": vf.enc(osv), "po": max(c["po"], 1)}

    def act():
        q = p
        if named_at:      # built elsewhere, then moved: the window follows the current value
            q = [(k, list(v)) for k, v in p] if kind == "sum" else list(p)
            f = q[which][1] if kind == "sum" else q
            for k in named_at[2]:
                f[k] += 3
        m = pf.PSFConvolvedModel2D(lights.build(kind, q), psf=psf, oversample=o, psf_oversample=c["po"] or None)
        if named_at:
            setattr(m, named_at[0], first[1][named_at[2][0]])
            setattr(m, named_at[1], first[1][named_at[2][1]])
        m.psf_pa = pa
        x, y = np.meshgrid(np.arange(ox, ox + nx), np.arange(oy, oy + ny))
        if c["how"] == "image":
            return x, y, model_to_image(m, (nx, ny))
        if c["how"] == "centred":
            return x, y, model_to_image(m, (nx, ny), center=ctr)
        if c["how"] in ("float", "subset"):
            x, y = x + frac, y + frac
        if c["how"] == "subset":
            k = rng.permutation(x.size)[: int(rng.integers(1, x.size + 1))]
            x, y = x.ravel()[k], y.ravel()[k]
        return x, y, m(x, y)

    ok, r = vf.raw(act)
    ev["ok"] = int(ok)
    if ok:
        x, y, v = r
        v = np.asarray(v)
        ev["x"], ev["y"] = vf.enc(np.ravel(x)), vf.enc(np.ravel(y))
        ev["img"] = vf.enc(np.ravel(v)) if v.shape == np.shape(x) else "shape %s" % (v.shape,)
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
    ev["case"] = str(c)
    return [ev]


def run(ctx):
    cases = vf.records(ctx.model("C13Model", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                                 what="all kinds of configuration"), "CASE")
    cases.sort(key=str)
    seeds = ctx.rng.integers(0, 2**31, 3 * len(cases))
    n = ctx.n(3600, 3 * len(cases))
    order = np.concatenate([ctx.rng.permutation(len(cases)) for _ in range(3)])[:n]
    jobs = [(cases[int(k)], int(seeds[i])) for i, k in enumerate(order)]
    tr = ctx.pmap(job, jobs)
    for i in range(0, len(tr), 1500):
        ctx.judge("C13", tr[i:i + 1500], "images")
