"""C10: sessions with correction grids: estimates, corrections, settings, files and lookups."""
import os
import tempfile
from fractions import Fraction

import numpy as np
import vf

CH = 6
KEYS = ("n", "p02", "p03", "p04", "p05", "u_r_50", "u_c2080", "c_r_50", "c_r_80", "c_r_99")
KEYS2 = ("p02", "u_r_50", "u_c2080")
READ = ("r_petrosian", "r_epsilon", "r_half_light", "r_total_flux", "total_flux", "half_flux", "c2080", "c5090", "epsilon", "eta", "epsilon_fraction",
        "total_flux_fraction", "r_petrosian_err", "r_half_light_err", "total_flux_err", "r_50", "r_total_flux_err")


def profile(rng):
    n = int(rng.integers(10, 30))
    r = np.cumsum(rng.uniform(0.6, 1.8, n)) if rng.random() < 0.5 else np.arange(1, n + 1) * float(rng.choice([1, 2]))
    h = r[-1] / rng.uniform(3, 9)
    f = float(rng.uniform(10, 5000)) * (1 - (1 + r / h) * np.exp(-r / h))
    d = dict(r=r, a=np.pi * r**2, f=f, ferr=0.02 * f if rng.random() < 0.3 else None, aerr=0.01 * r if rng.random() < 0.2 else None)
    if d["aerr"] is not None and d["ferr"] is None:
        d["aerr"] = None
    s = dict(epsilon=float(rng.choice([2, 2, 1.5, 0.8])), total_flux_fraction=float(rng.choice([0.99, 0.9])),
             interp_kind=str(rng.choice(["cubic", "cubic", "linear"])), interp_num=int(rng.choice([5000, 5000, 300])))
    return d, s


def build(d, s, **kw):
    import petrofit as pf

    return pf.Petrosian(d["r"], d["a"], d["f"], area_err=d["aerr"], flux_err=d["ferr"], **dict(s, **kw))


def measured(d, s):
    """What the profile measures (the functions that measure are decided by C05 to C07)."""
    p = build(d, s)
    x = build(d, dict(s, eta=0.2, interp_kind="cubic", interp_num=5000)).r_petrosian
    return [float(x), float(p.r_50), float(p.c2080)]


def make_grid(rng, ms):
    from astropy.table import Table

    n = int(rng.integers(2, 30))
    m = np.array([v for v in ms if np.all(np.isfinite(v))] or [[10.0, 3.0, 2.8]])
    lo, hi = m.min(axis=0), m.max(axis=0)
    cols = {}
    wide = rng.random() < 0.6
    for k, key in enumerate(("p02", "u_r_50", "u_c2080")):
        a, b = (lo[k] * 0.6, hi[k] * 1.5) if wide or rng.random() < 0.6 else (lo[k] * rng.choice([0.5, 1.02]), hi[k] * rng.choice([0.98, 2]))
        cols[key] = rng.uniform(min(a, b), max(a, b), n)
        if wide and n > 1:
            i, j = rng.choice(n, 2, replace=False)
            cols[key][i], cols[key][j] = min(a, b), max(a, b)
    if wide and rng.random() < 0.4:     # out of the range in one quantity, on one side, by a little or a lot
        key, k = [("p02", 0), ("u_r_50", 1), ("u_c2080", 2)][int(rng.integers(3))]
        gap = abs(hi[k]) * rng.choice([0.01, 0.3])
        if rng.random() < 0.5:
            cols[key] = np.abs(cols[key] - cols[key].min()) + hi[k] + gap
        else:
            cols[key] = lo[k] - gap - np.abs(cols[key] - cols[key].min())
    elif rng.random() < 0.4 and n > 2:    # values the distances of which compete
        cols["p02"][:] = np.round(cols["p02"])
        cols["p02"][0] += 3
    if rng.random() < 0.3 and n > 3:        # values that repeat, unevenly
        for key in KEYS2:
            i = rng.permutation(n)[:int(rng.integers(2, n - 1))]
            cols[key][i] = cols[key][i[0]]
    p02 = cols["p02"]
    for k, f in (("p03", 0.8), ("p04", 0.65), ("p05", 0.5)):
        cols[k] = p02 * rng.uniform(f - 0.05, f + 0.05, n)
    for k, f in (("c_r_50", 0.5), ("c_r_80", 1.0), ("c_r_99", 2.2)):
        cols[k] = p02 * rng.uniform(0.7 * f, 1.4 * f, n)
    cols["n"] = rng.choice([0.5, 1, 1.5, 2, 4], n) if rng.random() < 0.6 else rng.uniform(0.5, 8, n)
    cols["r_eff"] = rng.choice([5, 10, 20], n)
    if rng.random() < 0.5:
        names = list(cols)
        rng.shuffle(names)
        cols = {k: cols[k] for k in names}
    t = Table(cols)
    t["row"] = np.arange(1, n + 1)
    return t


def rows(t):
    return [{k: vf.enc(float(r[k])) for k in KEYS} for r in t]


def session(c, rng, scratch):
    import petrofit as pf
    from matplotlib import pyplot as plt

    d, s = profile(rng)
    if rng.random() < 0.1:              # a profile that never falls to eta
        d["f"] = d["a"] * 2.0
    s.update(eta=float(Fraction(c["eta"])), epsilon_fraction=float(Fraction(c["epsf"])))
    ms = [measured(d, s)]
    grid = make_grid(rng, ms)
    if rng.random() < 0.1:              # as read from a FITS file
        for k in KEYS:
            grid[k] = np.array(grid[k], dtype=">f8")
    p = build(d, s)
    ctor = {} if c["enforce"] and rng.random() < 0.5 else {"enforce_range": bool(c["enforce"])}
    corr = pf.PetrosianCorrection(grid, **ctor)
    cols0 = list(grid.colnames)
    tr = [dict(op="new", grid=rows(grid), enforce=c["enforce"], eta=vf.enc(s["eta"]), epsf=vf.enc(s["epsilon_fraction"]), before=0, after=0)]

    def state():
        return vf.digest([grid, d["r"], d["a"], d["f"], d["ferr"], d["aerr"], p.r_list, p.flux_list, p.area_list, p.epsilon, p.eta, p.epsilon_fraction,
                          p.total_flux_fraction, p.interp_kind, p.interp_num])

    hist = list(c["hist"])
    for h in hist:
        op = h["op"]
        if op in ("enforce", "eta", "epsf"):
            v = h["v"] if op == "enforce" else float(Fraction(h["v"]))
            if op == "enforce":
                corr.enforce_range = bool(v)
            else:
                name = {"eta": "eta", "epsf": "epsilon_fraction"}[op]
                setattr(p, name, v)
                s[name] = v
            tr.append(dict(op=op, v=vf.enc(v), ok=1, before=0, after=0))
            continue
        ev = dict(op=op, before=state(), m=vf.enc(measured(d, s)), case=c)
        if op == "epsilon" or op == "n":
            ok, r = vf.raw(corr.estimate_epsilon if op == "epsilon" else corr.estimate_n, p)
            if ok:
                ev["v"] = vf.enc(float(r))
        elif op == "correct":
            ok, r = vf.raw(corr.correct, p)
            if ok:
                eps = float(r.epsilon)
                b = dict(s, epsilon=eps)
                w = build(d, b)
                ev.update(v=vf.enc(eps), same=int(r is p),
                          others=int(all(vf.digest(getattr(r, k)) == vf.digest(getattr(w, k)) for k in
                                         ("r_list", "area_list", "flux_list", "area_err", "flux_err", "eta", "epsilon_fraction", "total_flux_fraction",
                                          "interp_kind", "interp_num", "verbose", "petrosian_list", "petrosian_err"))),
                          got={k: vf.enc(getattr(r, k)) for k in READ}, want={k: vf.enc(getattr(w, k)) for k in READ})
                b4 = state(), float(p.r_half_light), float(p.r_petrosian)
                r.epsilon, r.eta, r.epsilon_fraction = 3.3, 0.35, 0.7
                float(r.r_half_light)
                ev["apart"] = int(vf.digest(list(b4)) == vf.digest([state(), float(p.r_half_light), float(p.r_petrosian)]))
        elif op == "plot":
            ok, r = vf.raw(corr.plot_correction, p)
            plt.close("all")
        elif op == "io":
            def io():
                with tempfile.TemporaryDirectory(dir=scratch) as t:
                    ext, fmt = [(".yaml", "ascii.ecsv"), (".ecsv", None), (".fits", None), (".yml", "ascii.ecsv")][int(rng.integers(4))]
                    path = os.path.join(t, "grid" + ext)
                    kept = 1
                    if rng.random() < 0.2:
                        with open(path, "w") as f:
                            f.write("mine")
                        vf.raw(corr.write, path, **({"file_format": fmt} if fmt else {}))
                        with open(path, "rb") as f:
                            kept = int(f.read() == b"mine")
                        os.remove(path)
                    corr.write(path, **({"file_format": fmt} if fmt else {}))
                    again = pf.PetrosianCorrection.read(path, **({"file_format": fmt} if fmt else {}))
                    return rows(again.grid), list(again.grid.colnames), kept, vf.raw(again.estimate_epsilon, p)
            ok, r = vf.raw(io)
            if ok:
                ev.update(rows=r[0], cols=r[1], cols0=cols0, kept=r[2], again={"ok": int(r[3][0]), "m": ev["m"]})
                if r[3][0]:
                    ev["again"]["v"] = vf.enc(float(r[3][1]))
        else:
            key = str(rng.choice(KEYS))
            value = float(grid[key][int(rng.integers(len(grid)))]) if rng.random() < 0.8 else 1.0
            ok, r = vf.raw(lambda: (corr.filter_grid(key, value), corr.unique_grid_values(key), list(corr.grid_keys)))
            ev.update(key=key, value=vf.enc(value))
            if ok:
                ev.update(ids=[int(v) for v in r[0]["row"]], unique=vf.enc(np.asarray(r[1], dtype=float)), keys=r[2], cols0=cols0)
        ev["ok"] = int(ok)
        if not ok:
            ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
        ev["after"] = state()
        tr.append(ev)
    return tr


def case(job):
    cs, seed, scratch = job
    rng = np.random.default_rng(seed)
    return [session(c, rng, scratch) for c in cs]


def run(ctx):
    import petrofit  # noqa: F401

    cs = vf.records(ctx.model("C10Model", "CONSTANT Depth = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ctx.n(2, 3),
                              what="sessions with a correction grid"), "CASE")
    cs.sort(key=str)
    order = [cs[int(k)] for k in ctx.rng.permutation(len(cs))]
    cap = ctx.n(2600, 40000)
    order = order[:cap]
    # longer sessions: concatenations that respect the settings' history
    for _ in range(ctx.n(150, 3000)):
        a = dict(order[int(ctx.rng.integers(len(order)))])
        hist, ops = [], ["epsilon", "n", "correct", "correct", "epsilon", "io", "lookup", "plot"]
        for _ in range(int(ctx.rng.integers(4, 12))):
            u = ctx.rng.random()
            if u < 0.25:
                hist.append({"op": "eta", "v": str(ctx.rng.choice(["1/5", "3/10", "2/5", "1/2", "1/2", "1/4", "49/100", "2001/10000"]))})
            elif u < 0.5:
                hist.append({"op": "epsf", "v": str(ctx.rng.choice(["1/2", "4/5", "99/100", "9/10", "49/100", "81/100", "98/100"]))})
            elif u < 0.6:
                hist.append({"op": "enforce", "v": int(ctx.rng.integers(2))})
            else:
                hist.append({"op": str(ctx.rng.choice(ops))})
        a["hist"] = hist
        order.append(a)
    jobs = [order[i:i + CH] for i in range(0, len(order), CH)]
    tr = [t for b in ctx.pmap(case, [(j, int(k), ctx.dir) for j, k in zip(jobs, ctx.rng.integers(0, 2**31, len(jobs)))]) for t in b]
    ctx.judge("C10", tr, "sessions with a correction grid")
