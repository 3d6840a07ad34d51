"""C11: correction grids: rows, order, worker schedules, output file."""
import contextlib
import io
import os
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor
from multiprocessing import get_context

import numpy as np

import vf

# pairs that are quick to measure
NS = [0.5, 0.7, 1.0, 0.6666666667, 1.2000000001, 0.8, 1]
RES = [7, 8, 9.5, 10]
SLOT = 0.45     # seconds between the planned completions


def psf_of(sigma, size):
    y, x = np.mgrid[:size, :size] - size // 2
    p = np.exp(-(x**2 + 2 * y**2 * 0.5) / (2 * sigma**2))
    return p / p.sum()


CFG = [dict(oversample=("x_0", "y_0", 10, 20)), dict(oversample=2), dict(oversample=None),
       dict(psf=psf_of(1.0, 11), oversample=None), dict(psf=psf_of(2.0, 21), psf_oversample=2, oversample=4),
       dict(psf=psf_of(1.0, 11), oversample=("x_0", "y_0", 10, 10))]


def rows(t):
    return [{k: vf.enc(r[k]) for k in t.colnames} for r in t]


def ref(job):
    import petrofit as pf

    c, n, re = job
    ev = dict(op="ref", n=vf.enc(n), re=vf.enc(re), psf=int("psf" in CFG[c]), cfg=c)
    with contextlib.redirect_stdout(io.StringIO()):
        ok, t = vf.raw(pf.generate_petrosian_sersic_correction, None, r_eff_list=[re], n_list=[n], **CFG[c])
    ev["ok"] = int(ok)
    if ok:
        ev.update(rows=rows(t), names=list(t.colnames))
    else:
        ev["exc"] = repr(t)[:100].replace("#", "")
    return ev


def plan(ns, res, order):
    """Completion ranks of the pairs."""
    rank = {}
    for r, k in enumerate(order):
        i, j = divmod(k - 1, len(res))
        rank.setdefault((round(float(ns[i]), 6), float(res[j])), r)
    return rank


@contextlib.contextmanager
def scheduled(rank):
    """The first evaluation of a pair's galaxy in a process waits for the pair's slot."""
    from astropy.modeling.models import Sersic2D

    t0, seen, orig = time.time(), set(), Sersic2D.__dict__["evaluate"]

    def evaluate(cls, x, y, amplitude, r_eff, n, *rest):
        key = (round(float(np.ravel(n)[0]), 6), float(np.ravel(r_eff)[0]))
        if key in rank and key not in seen:
            seen.add(key)
            time.sleep(max(0, t0 + rank[key] * SLOT - time.time()))
        return orig.__func__(cls, x, y, amplitude, r_eff, n, *rest)

    Sersic2D.evaluate = classmethod(evaluate)
    try:
        yield
    finally:
        Sersic2D.evaluate = orig


def gen(job):
    import petrofit as pf
    from astropy.table import Table

    s, scratch = job
    kw = dict(CFG[s["cfg"]])
    wrap = [list, tuple, np.array][s["wrap"]]
    ns, res = wrap(s["ns"]), wrap(s["res"])
    with tempfile.TemporaryDirectory(dir=scratch) as d:
        ext, fmt = s["ext"]
        path = os.path.join(d, "grid" + ext)
        f = s["file"]
        if f == "nodir":
            path = os.path.join(d, "missing", "grid" + ext)
        elif f == "noformat":
            path, fmt = os.path.join(d, "grid.xyz"), ["no.such.format", None][s["wrap"] % 2]
        elif f == "isdir":
            path = os.path.join(d, "dir" + ext)
            os.mkdir(path)
        elif f in ("kept", "overwritten"):
            with open(path, "w") as o:
                o.write("mine")
        if f in ("overwritten",) or (f in ("new", "nodir") and s["wrap"] == 1):
            kw["overwrite"] = True
        if fmt is not None:
            kw["out_format"] = fmt
        if s["ncpu"] is not None:
            kw["n_cpu"] = s["ncpu"]
        if s["plot"]:
            kw["plot"] = True
        before = vf.digest([ns, res, kw.get("psf"), kw["oversample"]])
        ev = dict(op="gen", ns=vf.enc(s["ns"]), res=vf.enc(s["res"]), ref=s["ref"], file=f, case={k: s[k] for k in ("w", "order", "shape", "cfg")})
        with contextlib.redirect_stdout(io.StringIO()), scheduled(plan(s["ns"], s["res"], s["order"]) if s["w"] > 1 else {}):
            ok, t = vf.raw(pf.generate_petrosian_sersic_correction, None if f == "none" else path, r_eff_list=res, n_list=ns, **kw)
        if s["plot"]:
            from matplotlib import pyplot as plt

            plt.close("all")
        ev["ok"], ev["before"], ev["after"] = int(ok), before, vf.digest([ns, res, kw.get("psf"), kw["oversample"]])
        if not ok:
            ev["exc"] = repr(t)[:100].replace("#", "")
            return ev
        ev.update(rows=rows(t), names=list(t.colnames))
        if not os.path.isfile(path):
            ev["disk"] = {"k": "absent"}
        else:
            with open(path, "rb") as o:
                old = o.read() == b"mine"
            if old:
                ev["disk"] = {"k": "old"}
            else:
                ok, b = vf.raw(lambda: pf.PetrosianCorrection.read(path, file_format=fmt).grid if s["wrap"] != 1 else Table.read(path, format=fmt))
                ev["disk"] = {"k": "grid", "rows": rows(b), "names": list(b.colnames)} if ok else {"k": "unreadable " + repr(b)[:60].replace("#", "")}
        known = {os.path.relpath(path, d), "missing" if f == "nodir" else ""}
        ev["others"] = len([x for x in os.listdir(d) if x not in known])
    return ev


def sessions(ctx, cases):
    rng = ctx.rng
    by = {}
    for c in cases:
        by.setdefault((tuple(c["shape"]), c["w"], tuple(c["order"])), []).append(c)
    keys = sorted(by)
    pick = []
    for rep in range(ctx.n(1, 6)):
        for k in keys:
            if k[1] == 1:
                pick.extend(by[k] if rep else [by[k][int(i)] for i in rng.permutation(len(by[k]))[:3]])
            else:
                pick.append(by[k][int(rng.integers(len(by[k])))])
    out = []
    for c in pick:
        a, b = c["shape"]
        cfg = int(rng.choice(len(CFG), p=[0.3, 0.2, 0.1, 0.1, 0.15, 0.15]))
        s = dict(c, cfg=cfg, wrap=int(rng.integers(3)), plot=0)
        s["ns"] = [NS[int(i)] for i in rng.choice(len(NS), a, replace=rng.random() < 0.25)]
        s["res"] = [RES[int(i)] for i in rng.choice(len(RES), b, replace=rng.random() < 0.25)]
        if cfg in (2, 3):
            s["ns"] = [min(n, 1) for n in s["ns"]]
        s["ext"] = [(".yaml", "ascii.ecsv"), (".yml", "ascii.ecsv"), (".ecsv", None), (".csv", None), (".fits", None), (".dat", "ascii.csv")][int(rng.integers(6))]
        if c["w"] == 1:
            s["ncpu"] = [None, None, 1][int(rng.integers(3))]
            s["plot"] = int(rng.random() < 0.15)
        else:
            s["ncpu"] = c["w"] if rng.random() < 0.9 else True
        out.append(s)
    return out


def run(ctx):
    import petrofit  # noqa: F401

    const = "CONSTANTS MaxW = 3 Shapes = %d\n" % ctx.n(4, 6)
    cases = vf.records(ctx.model("C11Model", const + "INIT Init\nNEXT Next\nINVARIANT Complete\nINVARIANT FileRule\nINVARIANT NoneLost\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                                 what="all shapes, worker counts, completion orders and output files"), "CASE")
    ctx.model("C11Model", const + "SPECIFICATION Spec\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n", what="every grid is finished")
    ss = sessions(ctx, cases)
    pairs = sorted({(s["cfg"], n, r) for s in ss for n in s["ns"] for r in s["res"]})
    extra = ctx.n([(0, 2.5, 10), (5, 2, 8), (0, 4, 30)], [(c, n, r) for c in (0, 1, 4, 5) for n in (0.5, 1.5, 2, 2.5, 3) for r in (7.5, 10, 16) if c != 1 or n <= 2] + [(0, 4, 30), (0, 4.5, 45), (0, 0.7, 5), (5, 3, 60)])
    pairs += [p for p in extra if p not in pairs]
    # not ctx.pmap: its workers may have no child processes
    with ProcessPoolExecutor(8, mp_context=get_context("fork")) as ex:
        refs = list(ex.map(ref, pairs))
        at = {}
        traces = [[] for _ in CFG]
        for p, e in zip(pairs, refs):
            traces[p[0]].append(e)
            at[p] = len(traces[p[0]])
        for s in ss:
            s["ref"] = [[at[(s["cfg"], n, r)] for r in s["res"]] for n in s["ns"]]
        gens = list(ex.map(gen, [(s, ctx.dir) for s in ss]))
    for s, e in zip(ss, gens):
        traces[s["cfg"]].append(e)
    ctx.judge("C11", [t for t in traces if t], "rows measured alone; grids under every completion order and file state")
    ctx.assumptions.append("completion orders are realised by delaying the galaxy model of each pair until its slot")
