"""C18: values of the analytic Sersic helpers."""
from fractions import Fraction

import numpy as np
import vf


def gal(rng):
    n = float(rng.choice([0.5, 1, 2, 4, 10, round(float(rng.uniform(0.3, 10)), 3)]))
    if rng.random() < 0.2 and n == int(n):
        n = int(n)
    return dict(amp=float(10 ** rng.uniform(-3, 4)), re=float(10 ** rng.uniform(-0.5, 2)), n=n,
                e=float(rng.choice([0, round(float(rng.uniform(0, 0.95)), 3)])))


def job(seed):
    import petrofit as pf
    from astropy.modeling import models
    from petrofit.modeling.models import petrosian_model, sersic_enclosed_model

    rng = np.random.default_rng(seed)
    g = gal(rng)
    if seed % 7 == 0:
        g["amp"], g["re"] = int(g["amp"]) + 1, int(g["re"]) + 1
    amp, re, n, e = g["amp"], g["re"], g["n"], g["e"]
    tr = []

    def add(op, fn, **kw):
        ok, r = vf.raw(fn)
        ev = dict({k: vf.enc(v) for k, v in g.items()}, op=op, ok=int(ok), **{k: vf.enc(v) for k, v in kw.items()})
        if ok:
            ev.update({k: vf.enc(v) for k, v in r.items()})
        else:
            ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
        tr.append(ev)

    def star(v):
        return [float(x) for x in v]

    u = np.concatenate([[0], np.sort(10 ** rng.uniform(-4 if n > 1 else -2, 1.2, 7)), [1]])
    u = np.unique(u)
    r = u * re
    if rng.random() < 0.25:
        r = np.unique(np.round(r)).astype(int)
    kamp, s, e2 = float(rng.uniform(0.1, 9)), float(rng.uniform(0.2, 5)), float(rng.uniform(0, 0.9))
    huge = re * 1e3 ** max(n, 1)
    pos = [] if seed % 2 else [e]
    kwe = {} if pos else {"ellip": e}
    if e == 0 and seed % 3 == 0:
        kwe, pos = {}, []

    def flux():
        L = pf.sersic_enclosed(r, amp, re, n, *pos, **kwe)
        tot = pf.sersic_enclosed(huge, amp, re, n, *pos, **kwe)
        m = sersic_enclosed_model(amplitude=amp, r_eff=re, n=n, ellip=e)
        return dict(L=L, total=tot, half=pf.sersic_enclosed(re, amp, re, n, ellip=e),
                    Lamp=pf.sersic_enclosed(r, amp * kamp, re, n, e), Lell=pf.sersic_enclosed(r, amp, re, n, e2),
                    Lscale=pf.sersic_enclosed(r * s, amp, re * s, n, e),
                    inv=pf.sersic_enclosed_inv(np.asarray(L), amp, re, n, *pos, **kwe),
                    invhalf=pf.sersic_enclosed_inv(tot / 2, amp, re, n, ellip=e),
                    Lmodel=m(r.astype(float)), Lscalar=[pf.sersic_enclosed(x, amp, re, n, e) for x in r])

    add("flux", flux, r=r, kamp=kamp, s=s, e2=e2)
    r1 = re * float(10 ** rng.uniform(-1, 0.5))
    r2 = r1 * float(rng.uniform(1.05, 2))
    th = float(rng.uniform(-3, 3))

    def ann():
        m = models.Sersic2D(amp, re, n, 0, 0, e, th)
        a = float(rng.uniform(-3, 3))
        pt = lambda q: (q * np.cos(a) * np.cos(th) - q * (1 - e) * np.sin(a) * np.sin(th),
                        q * np.cos(a) * np.sin(th) + q * (1 - e) * np.sin(a) * np.cos(th))
        return dict(L1=pf.sersic_enclosed(r1, amp, re, n, e), L2=pf.sersic_enclosed(r2, amp, re, n, e),
                    I1=m(*pt(r1)), I2=m(*pt(r2)))

    add("annulus", ann, r1=r1, r2=r2)
    rp = r[1:] if r[0] == 0 else r

    def petro():
        m1 = models.Sersic1D(amp, re, n)
        return dict(p=pf.petrosian_profile(rp, re, n), pscale=pf.petrosian_profile(rp * s, re * s, n),
                    I=m1(rp.astype(float)), L=pf.sersic_enclosed(rp, amp, re, n, e),
                    pmodel=petrosian_model(r_eff=re, n=n)(rp.astype(float)),
                    pscalar=[pf.petrosian_profile(x, re, n) for x in rp])

    add("petro", petro, r=rp)

    def cen():
        I0 = pf.Ie_to_I0(amp, n)
        back = pf.I0_to_Ie(I0, n)
        m = models.Sersic2D(amp, re, n, 0, 0, e, 0)
        return dict(Ie=amp, I0=I0, Ieback=back, I0back=pf.Ie_to_I0(back, n), atcentre=m(0, 0), atre=m(re, 0))

    add("centre", cen)
    return tr


def approx(rec):
    import petrofit as pf

    v = {k: float(Fraction(x[1:])) for k, x in rec.items()}
    A = pf.PetroApprox
    ok, r = vf.raw(lambda: dict(fromc=float(A.c2080_to_n(v["c"])), fromu=float(A.u2080_to_c2080(v["u"])),
                                fromn=float(A.n_to_epsilon(v["n"])), fromp=float(A.p0502_to_epsilon(v["p"]))))
    ev = dict(rec, op="approx", ok=int(ok))
    if ok:
        ev.update({k: vf.enc(x) for k, x in r.items()})
    return [ev]


def run(ctx):
    import petrofit  # noqa: F401

    exact = vf.records(ctx.model("C18Model", "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                                 what="exact relations for n = 0.5..10"), "CASE")
    ctx.judge("C18", [approx(r) for r in exact], "closed-form approximations")
    seeds = [int(x) for x in ctx.rng.integers(0, 2**31, ctx.n(700, 12000))]
    tr = ctx.pmap(job, seeds)
    for i in range(0, len(tr), 3000):
        ctx.judge("C18", tr[i:i + 3000], "analytic helpers of random galaxies")
