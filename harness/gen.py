"""Random and adversarial curves of growth and profiles shared by the Petrosian drivers."""
import numpy as np


def radii(rng, n, style=None):
    style = rng.integers(0, 3) if style is None else style
    if style == 0:
        return np.arange(1, n + 1) * float(rng.choice([1, 0.5, 2, 4]))
    if style == 1:
        return np.cumsum(rng.integers(1, 5, n)) * 1.0
    return np.cumsum(rng.uniform(0.3, 3.0, n))


def profile(rng, n):
    """Petrosian-like profile: decreasing, wavy, re-rising, never crossing, plateaus."""
    t = np.linspace(0, 1, n)
    k = rng.integers(0, 6)
    if k == 0:
        p = np.exp(-rng.uniform(1, 6) * t)
    elif k == 1:
        p = np.exp(-rng.uniform(1, 4) * t) + rng.uniform(0.05, 0.5) * np.sin(rng.uniform(3, 20) * t)
    elif k == 2:
        p = rng.uniform(-0.2, 1.2, n)
    elif k == 3:
        p = rng.integers(-2, 9, n) / 8.0
    elif k == 4:
        p = 1 - rng.uniform(0.1, 0.9) * t
    else:
        p = np.repeat(rng.integers(0, 8, (n + 1) // 2) / 8.0, 2)[:n]
    return p


def cog(rng, n, r=None):
    """(r, area, flux): a curve of growth of a decaying profile, possibly with noise or negative sky."""
    r = radii(rng, n) if r is None else r
    area = np.pi * r**2
    h = r[-1] / rng.uniform(1.5, 9)
    k = rng.integers(0, 4)
    if k == 0:
        flux = 1 - (1 + r / h) * np.exp(-r / h)
    elif k == 1:
        flux = 1 - np.exp(-((r / h) ** 2))
    elif k == 2:
        flux = r**2 / (r**2 + h**2)
    else:
        flux = 1 - np.exp(-((r / h) ** 0.7))
    amp = 10.0 ** rng.integers(-2, 4) * rng.uniform(1, 9)
    flux = flux * amp
    s = rng.random()
    if s < 0.25:
        flux = flux - amp * rng.uniform(0.0, 0.3) * (r / r[-1]) ** 2  # over-subtracted sky: non-monotone
    elif s < 0.45:
        flux = flux + amp * 0.02 * np.cumsum(rng.normal(size=n))
    if flux[0] <= 0:
        flux = flux - flux.min() + amp * 0.01
    return r, area, flux


KINDS = [None, "linear", "cubic", "nearest", "previous", "next", "slinear", "zero", "nearest-up"]


def kind(rng, n):
    k = KINDS[rng.choice(len(KINDS), p=[0.16, 0.22, 0.3, 0.06, 0.06, 0.06, 0.06, 0.04, 0.04])]
    if k == "cubic" and n < 4:
        k = "linear"
    return k


STEP_KINDS = ("nearest", "previous", "next", "zero", "nearest-up")


def cog_for(rng, n, kind):
    """A curve of growth for an interpolation kind: step kinds get irregular radii, so that no
    sampling point coincides with a discontinuity (there, rounding decides)."""
    return cog(rng, n, radii(rng, n, 2) if kind in STEP_KINDS else None)


def errors(rng, f):
    k = rng.integers(0, 4)
    s = np.abs(f).max()
    if k == 0:
        return np.full(len(f), s * rng.uniform(0.001, 0.05))
    if k == 1:
        return np.abs(f) * rng.uniform(0, 0.06, len(f))
    if k == 2:
        return np.linspace(0.001, rng.uniform(0.01, 0.3), len(f)) * s
    return s * rng.uniform(0, 0.4, len(f))


def settings(rng):
    return dict(
        eta=float(rng.choice([0.2, 0.3, 0.5, 0.1, 0.7])),
        epsilon=float(rng.choice([2.0, 1.0, 0.5, 1.5, 3.0, 0.05, 1.0 + rng.random()])),
        epsilon_fraction=float(rng.choice([0.99, 0.8, 0.5, 1.0])),
        total_flux_fraction=float(rng.choice([0.99, 0.9, 0.5, 0.8])))


def narrow(v):
    """Whole numbers in the narrowest integer type that holds them (unsigned if possible); others in single precision if exact."""
    v = np.array(v)
    for t in (np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.float32):
        if (v == v.astype(t)).all():
            return v.astype(t)
    return v


def counts(rng, n):
    """Curve of growth and errors of a source measured in counts: whole numbers in narrow types."""
    r = narrow(np.cumsum(rng.integers(1, 4, n)))
    f = np.cumsum(np.sort(rng.integers(1, 60, n))[::-1]) * int(rng.choice([1, 30, 1000])) + rng.integers(-3, 4, n)
    return r, narrow(np.abs(f) + 1), narrow(rng.integers(0, 9, n) * int(rng.choice([1, 1, 40])))
