"""2D models for the checks: random parameters, astropy objects, and their description for module Light."""
import numpy as np
import vf

POLY = ["c0_0", "c1_0", "c2_0", "c0_1", "c0_2", "c1_1"]


def dyadic(rng, lo, hi, q=16):
    return float(int(rng.integers(int(lo * q), int(hi * q) + 1))) / q


def params(kind, rng, x0=3.0, y0=3.0, spread=2.0):
    d = lambda lo, hi: dyadic(rng, lo, hi)
    c = lambda a: dyadic(rng, a - spread, a + spread)
    if kind == "poly":
        return [d(-4, 4), d(-2, 2), d(-1, 1), d(-2, 2), d(-1, 1), d(-1, 1)]
    if kind == "moffat":
        return [d(0.5, 6), c(x0), c(y0), d(0.5, 3), 1.0]
    if kind == "gauss":
        return [d(0.5, 6), c(x0), c(y0), d(0.75, 3), d(0.75, 3), d(-2, 2)]
    if kind == "sersic":
        return [d(0.5, 6), d(1, 4), d(0.5, 4), c(x0) + 1 / 64, c(y0) + 1 / 32, d(0, 0.75), d(-3, 3)]
    raise ValueError(kind)


def describe(kind, p):
    if kind == "sum":
        return {"k": "sum", "m": [describe(k, q) for k, q in p]}
    return {"k": kind, "p": vf.enc(p)}


def build(kind, p):
    from astropy.modeling import models

    if kind == "sum":
        return build(*p[0]) + build(*p[1])
    if kind == "poly":
        return models.Polynomial2D(2, **dict(zip(POLY, p)))
    if kind == "moffat":
        return models.Moffat2D(*p)
    if kind == "gauss":
        return models.Gaussian2D(*p)
    return models.Sersic2D(*p)


def draw(rng, kinds=("poly", "moffat", "gauss", "sersic", "sum"), **kw):
    k = str(rng.choice(list(kinds)))
    if k == "sum":
        a, b = [str(rng.choice([x for x in kinds if x != "sum"])) for _ in range(2)]
        return "sum", [(a, params(a, rng, **kw)), (b, params(b, rng, **kw))]
    return k, params(k, rng, **kw)
