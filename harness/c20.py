"""C20: unit and shape conversions over every unit, WCS form and input form."""
from fractions import Fraction

import numpy as np
import gen
import vf

CH = 40


def make_wcs(scale, form, ratio, ang, rng):
    """A WCS of the given pixel scale (arcsec); returns it with its linear transformation and units."""
    from astropy.wcs import WCS

    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.crpix = [float(rng.uniform(0, 100)), float(rng.uniform(0, 100))]
    w.wcs.crval = [float(rng.uniform(0, 360)), float(rng.uniform(-80, 80))]
    unit = "arcsec" if form == "arcsec-units" else "deg"
    q = 1.0 if unit == "arcsec" else 1 / 3600.0
    sx, sy = scale * q, scale * q * ratio
    w.wcs.cunit = [unit, unit]
    c, s = np.cos(ang), np.sin(ang)
    if form in ("cdelt", "arcsec-units"):
        w.wcs.cdelt = [-sx, sy]
        cd = [[-sx, 0.0], [0.0, sy]]
    elif form == "pc":
        w.wcs.pc = [[c, -s], [s, c]] if ratio == 1 else [[-1.0, 0.0], [0.0, 1.0]]
        w.wcs.cdelt = [sx, sy]
        cd = [[w.wcs.pc[0][0] * sx, w.wcs.pc[0][1] * sx], [w.wcs.pc[1][0] * sy, w.wcs.pc[1][1] * sy]]
    else:
        cd = {"cd": [[-sx, 0.0], [0.0, sy]], "rotated": [[-sx * c, sy * s], [sx * s, sy * c]],
              "flipped": [[sx * s, sy * c], [sx * c, -sy * s]]}[form]
        w.wcs.cd = cd
    return w, cd, unit


def outs(r, n):
    """Values of a result as a list of n numbers."""
    v = getattr(r, "value", r)
    return vf.enc(np.asarray(v).ravel()) if np.ndim(v) else [vf.enc(v)]


def shaped(form, vals):
    a = np.array(vals, dtype=float)
    return {"scalar": lambda: float(a[0]), "int": lambda: int(a[0]), "array": lambda: a, "list": lambda: list(map(float, a)),
            "quantity": lambda: a}[form]()


def angle(c, rng):
    import astropy.units as u
    from petrofit import utils as U

    scale, ratio = float(Fraction(c["scale"])), float(Fraction(c["ratio"]))
    w, cd, cunit = make_wcs(scale, c["form"], ratio, float(rng.uniform(0, 2 * np.pi)), rng)
    f = c["input"]
    vals = [float(rng.integers(1, 60))] if f == "int" else [float(rng.uniform(0.01, 300))] if f == "scalar" else list(rng.uniform(0, 99, int(rng.integers(1, 5))))
    x = shaped(f, vals)
    unit = getattr(u, c["unit"])
    ang = x * unit
    pix = x * u.pix if f == "quantity" else x
    args = [ang, pix, w.to_header()]
    ev = dict(op="angle", before=vf.digest(args), unit=c["unit"], cunit=cunit, cd=vf.enc(cd), v=vf.enc(vals))
    n = len(vals)
    back = {}

    def b():
        r = U.pixel_to_angular(pix, w)
        back["unit"] = str(r.unit)
        return r

    for k, fn in (("to", lambda: U.angular_to_pixel(ang, w)), ("back", b),
                  ("round", lambda: U.angular_to_pixel(U.pixel_to_angular(pix, w), w))):
        ok, r = vf.raw(fn)
        ev[k] = {"ok": int(ok), "v": outs(r, n) if ok else "exc"}
    ev["backunit"] = back.get("unit", "none")
    ev["after"] = vf.digest([ang, pix, w.to_header()])
    return ev


HDR = [(7.8624958e-20, -21.10, 8140.0), (1.5274129e-20, -21.1, 15369.176), (1e-18, -20.5, 5000.0)]


def mag(vals, form, rng):
    from astropy.io import fits
    from petrofit.utils import hst_flux_to_abmag

    a = np.array([float(Fraction(v)) if v != "nan" else np.nan for v in vals])
    x = {"float": lambda: float(a[0]), "int": lambda: int(a[0]), "npfloat": lambda: np.float64(a[0]), "npfloat32": lambda: np.float32(a[0]),
         "npint": lambda: np.int64(a[0]), "array": lambda: a.copy(), "array32": lambda: a.astype(np.float32), "intarray": lambda: a.astype(int),
         "list": lambda: list(map(float, a)), "tuple": lambda: tuple(map(float, a)), "2d": lambda: np.array([a, a])}[form]()
    flux = np.atleast_1d(np.asarray(x, dtype=float)).ravel()
    fl, zp, pl = HDR[int(rng.integers(len(HDR)))]
    if rng.random() < 0.5:
        fl, zp, pl = float(10 ** rng.uniform(-21, -17)), float(rng.uniform(-22, -20)), float(rng.uniform(2000, 17000))
    h = {"PHOTFLAM": fl, "PHOTZPT": zp, "PHOTPLAM": pl}
    if rng.random() < 0.5:
        h = fits.Header(list(h.items()))
    ev = dict(op="mag", before=vf.digest([x, h]), flux=vf.enc(flux), PHOTFLAM=vf.enc(fl), PHOTZPT=vf.enc(zp), PHOTPLAM=vf.enc(pl), single=int("32" in form))
    ok, r = vf.raw(hst_flux_to_abmag, x, h)
    ev["ok"] = int(ok)
    if ok:
        ev["mag"] = outs(r, len(flux)) if np.shape(r) == np.shape(x) else "shape %s" % (np.shape(r),)
    else:
        ev["exc"] = type(r).__name__ + str(r)[:80].replace("#", "")
    ev["after"] = vf.digest([x, h])
    return ev


def ellip(es, form):
    from petrofit import utils as U

    es = np.array(es, dtype=float)
    el = 1 / (1 - es)
    e, l = (es, el) if form == "array" else (np.float64(es[0]), np.float64(el[0])) if form == "npfloat" else (float(es[0]), float(el[0]))
    ev = dict(op="ellip", before=vf.digest([e, l]), e=vf.enc(np.atleast_1d(e)), el=vf.enc(np.atleast_1d(l)))
    ok, r = vf.raw(lambda: (U.ellip_to_elong(e), U.elong_to_ellip(l), U.elong_to_ellip(U.ellip_to_elong(e))))
    ev["ok"] = int(ok)
    if ok:
        ev.update(toE=outs(r[0], 1), toe=outs(r[1], 1), back=outs(r[2], 1))
    ev["after"] = vf.digest([e, l])
    return ev


def area(ar, els, form):
    from petrofit import utils as U

    ar, els = np.array(ar, dtype=float), np.array(els, dtype=float)
    a, e = (ar, els) if form == "array" else (int(ar[0]), float(els[0])) if form == "int" else (float(ar[0]), float(els[0]))
    ev = dict(op="area", before=vf.digest([a, e]), area=vf.enc(np.atleast_1d(a)), el=vf.enc(np.atleast_1d(e)))
    ok, r = vf.raw(lambda: U.elliptical_area_to_r(a, e) + (U.circle_area_to_r(a),))
    ev["ok"] = int(ok)
    if ok:
        ev.update(a=outs(r[0], 1), b=outs(r[1], 1), r=outs(r[2], 1))
    ev["after"] = vf.digest([a, e])
    return ev


def radii(rng):
    from petrofit.petrosian import Petrosian

    r, a, f = gen.curve(rng) if hasattr(gen, "curve") else sersic(rng)
    w, cd, cunit = make_wcs(float(rng.uniform(0.01, 3)), str(rng.choice(["cdelt", "cd", "pc", "rotated", "flipped", "arcsec-units"])), 1.0,
                            float(rng.uniform(0, 6.28)), rng)
    p = Petrosian(r, a, f, eta=float(rng.choice([0.1, 0.2, 0.3])), epsilon=float(rng.choice([1, 2, 3])))
    ev = dict(op="radii", before=vf.digest([r, a, f]), cd=vf.enc(cd), cunit=cunit)
    ok, v = vf.raw(lambda: (p.r_half_light, p.r_total_flux, p.r_half_light_arcsec(w), p.r_total_flux_arcsec(w)))
    ev["ok"] = int(ok)
    if ok:
        ev.update(half=vf.enc(v[0]), total=vf.enc(v[1]), half_as=vf.enc(v[2]), total_as=vf.enc(v[3]))
    else:
        ev["exc"] = type(v).__name__ + str(v)[:80].replace("#", "")
    ev["after"] = vf.digest([r, a, f])
    return ev


def sersic(rng):
    n = int(rng.integers(10, 60))
    r = np.linspace(1, float(rng.uniform(10, 80)), n)
    h = float(rng.uniform(2, 30))
    return r, np.pi * r**2, 100 * (1 - (1 + r / h) * np.exp(-r / h))


def case(job):
    cs, seed = job
    rng = np.random.default_rng(seed)
    tr = []
    for c in cs:
        if c["op"] == "angle":
            tr.append(angle(c, rng))
        elif c["op"] == "mag":
            tr.append(mag(c["flux"], c["form"], rng))
        elif c["op"] == "ellip":
            tr.append(ellip([c["k"] / 41, c["k"] / 43], c["form"]))
        else:
            tr.append(area([float(4 ** c["k"]) if c["form"] == "int" else 3.7 ** (c["k"] - 4)] * 2, [1 + c["e"] / 3, 1 + c["e"]], c["form"]))
    return tr


def rand(seed):
    rng = np.random.default_rng(seed)
    tr = [radii(rng), radii(rng), ellip(rng.uniform(0, 0.999, 5), "array"), area(10 ** rng.uniform(-3, 6, 5), 1 / rng.uniform(0.02, 1, 5), "array")]
    vals = [str(Fraction(float(10 ** rng.uniform(-12, 12) * rng.choice([1, 1, 1, -1])))) for _ in range(6)]
    tr.append(mag(vals, str(rng.choice(["array", "list", "2d", "tuple"])), rng))
    tr.append(mag(vals[:1], str(rng.choice(["float", "npfloat"])), rng))
    tr.append(angle(dict(unit=str(rng.choice(["deg", "rad", "arcmin", "arcsec", "mas"])), scale=str(Fraction(float(10 ** rng.uniform(-2.3, 2)))),
                         form=str(rng.choice(["cdelt", "cd", "pc", "rotated", "flipped", "arcsec-units"])), ratio="1",
                         input=str(rng.choice(["scalar", "int", "array", "list", "quantity"]))), rng))
    return tr


def run(ctx):
    cs = vf.records(ctx.model("C20Model", "CONSTANTS MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                              % ctx.n(3, 4), what="all combinations of units, WCS forms, input forms and short flux lists"), "CASE")
    cs.sort(key=str)
    jobs = [cs[i:i + CH] for i in range(0, len(cs), CH)]
    ctx.judge("C20", ctx.pmap(case, list(zip(jobs, (int(k) for k in ctx.rng.integers(0, 2**31, len(jobs)))))), "all combinations")
    ctx.judge("C20", ctx.pmap(rand, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(500, 8000))]), "random inputs")
