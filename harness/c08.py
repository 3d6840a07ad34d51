"""C08: replay of every enumerated history (and of long random ones) on real Petrosian objects."""
import copy
import itertools
import json
import os
import pickle

import numpy as np
import gen
import vf

DOM = {"eta": [0.2, 0.5], "eps": [2.0, 0.7], "epsf": [0.99, 0.5], "tff": [0.99, 0.8], "kind": [0, 1], "num": [0, 1]}
ATTR = {"eta": "eta", "eps": "epsilon", "epsf": "epsilon_fraction", "tff": "total_flux_fraction", "kind": "interp_kind", "num": "interp_num"}
ORDER = ["eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "r_petrosian", "r_petrosian_err", "r_epsilon",
         "r_half_light", "r_half_light_err", "r_50", "r_50_err", "r_total_flux", "r_total_flux_err", "total_flux",
         "total_flux_err", "half_flux", "half_flux_err", "c2080", "c5090"]


def datasets():
    rng = np.random.default_rng(7)
    r = np.arange(1, 13) * 2.0
    out = []
    for k, (h, kind, num, ferr, aerr) in enumerate([
            (3.5, "cubic", 150, False, False), (4.0, "linear", 100, True, False),
            (6.5, "cubic", 150, True, True), (3.0, None, 10, True, False)]):
        f = 50 * (1 - (1 + r / h) * np.exp(-r / h))
        if k == 2:
            f = f + 4.0 * np.sin(r / 3)
        out.append(dict(r=r, a=np.pi * r**2, f=f, ferr=0.02 * f + 0.1 * rng.random(12) if ferr else None,
                        aerr=0.01 * r if aerr else None, kind=kind, num=num))
    return out


def grid():
    from astropy.table import Table

    n = 6
    k = np.arange(n)
    cols = {"n": 0.5 + k, "r_eff": 3.0 + k, "p02": 8.0 + 3 * k, "p03": 7.0 + 2.5 * k, "p04": 6 + 2.2 * k,
            "p05": 5.0 + 2 * k, "u_r_50": 3 + 1.1 * k, "u_c2080": 2.2 + 0.3 * k, "c_r_50": 3.1 + 1.2 * k,
            "c_r_80": 6.2 + 2.2 * k, "c_r_99": 11.0 + 6 * k}
    return Table(cols)


def KIND(d, k):
    return d["kind"] if k == 0 else "cubic" if d["kind"] == "linear" else "linear"


def NUM(d, k):
    return d["num"] if k == 0 else 37


def build(d, s, arrays=None):
    import petrofit as pf

    A = arrays or d
    return pf.Petrosian(A["r"], A["a"], A["f"], area_err=A["aerr"], flux_err=A["ferr"], eta=s["eta"], epsilon=s["eps"],
                        epsilon_fraction=s["epsf"], total_flux_fraction=s["tff"], interp_kind=KIND(d, s["kind"]), interp_num=NUM(d, s["num"]))


def read(o, order=ORDER):
    v = {}
    for k in order:
        v[k] = getattr(o, k)
    v["in_range"] = bool(o.r_epsilon_in_range)
    v["conc2080"] = o.concentration_index()[2]
    v["conc5090"] = o.concentration_index(0.5, 0.9)[2]
    v["fraction50"] = o.fraction_flux_to_r(0.5)
    v["frac30"] = o.fraction_flux_to_r(0.3)
    v["frac30_err"] = o.fraction_flux_to_r_err(0.3)
    v["rmin"], v["rmax"] = min(o.r_list), max(o.r_list)
    v["r_list"], v["area_list"], v["flux_list"] = o.r_list, o.area_list, o.flux_list
    v["flux_err"], v["area_err"] = o.flux_err, o.area_err
    v["profile"], v["profile_err"] = o.petrosian_list, o.petrosian_err
    return v


def replay(args):
    k, hist = args
    from matplotlib import pyplot as plt
    import petrofit as pf

    d = datasets()[k]
    arrays = {x: None if d[x] is None else d[x].copy() for x in ("r", "a", "f", "ferr", "aerr")}
    corr = pf.PetrosianCorrection(grid(), enforce_range=False)
    s0 = {x: DOM[x][0] for x in DOM}
    ok, o = vf.raw(lambda: build(d, s0, arrays))
    tr = [{"op": "new", "data": k, "s": {x: vf.num(v) for x, v in s0.items()}, "ok": int(ok)}]
    heap = [o]
    hist = list(hist) + [{"op": "readall"}]
    for e in hist:
        todo = [dict(e)]
        if e["op"] == "readall":
            todo = [{"op": "read", "h": i + 1} for i in range(len(heap))]
        for e in todo:
            op, h = e["op"], e.get("h", 0)
            o = heap[h - 1] if h else None
            ev = {"op": op, "h": h}
            if op == "mutate":
                for x in arrays.values():
                    if x is not None:
                        x += 3.0
            before = vf.digest(list(arrays.values()))

            def act():
                if op == "set":
                    ev["field"], ev["val"] = e["field"], vf.num(DOM[e["field"]][e["val"]])
                    f, v = e["field"], DOM[e["field"]][e["val"]]
                    setattr(o, ATTR[f], KIND(d, v) if f == "kind" else NUM(d, v) if f == "num" else v)
                elif op == "read":
                    ev["v"] = vf.enc(read(o, ORDER if len(tr) % 2 else ORDER[::-1]))
                elif op in ("plot", "plot_cog"):
                    getattr(o, op)()
                elif op == "imshow":
                    o.imshow(position=(4, 4), elong=1.3)
                elif op == "copy":
                    heap.append(copy.copy(o))
                elif op == "deepcopy":
                    heap.append(copy.deepcopy(o))
                elif op == "pickle":
                    heap.append(pickle.loads(pickle.dumps(o)))
                elif op == "correct":
                    q = corr.correct(o)
                    ev["val"] = vf.num(float(q.epsilon))
                    heap.append(q)

            ok, r = vf.raw(act)
            ev["ok"] = int(ok)
            if not ok:
                ev["exc"] = type(r).__name__ + ": " + str(r)[:80].replace("#", "")
            ev["before"], ev["after"] = before, vf.digest(list(arrays.values()))
            tr.append(ev)
            if op in ("plot", "plot_cog", "imshow"):
                plt.clf()
            if not ok and op in ("copy", "deepcopy", "correct", "pickle"):
                return tr
    return tr


def fresh_entry(args):
    import petrofit as pf

    k, s = args
    d = datasets()[k]
    ok, v = vf.raw(lambda: read(build(d, s)))
    v = v if ok else {"exc": 1}
    corr = pf.PetrosianCorrection(grid(), enforce_range=False)
    v = vf.enc(v)
    ok, est = vf.raw(lambda: float(corr.estimate_epsilon(build(d, s))))
    return {"data": k, "s": {x: vf.num(y) for x, y in s.items()}, "v": v, "est": vf.num(est) if ok else "none"}


def run(ctx):
    depth = 3
    hists = [json_h for json_h in vf.records(ctx.model(
        "C08Model", "CONSTANTS Depth = %d\nMaxObj = 3\nINIT Init\nNEXT Next\nINVARIANT Emit\n"
        "PROPERTIES Isolated CopyEq\nCHECK_DEADLOCK FALSE\n" % depth,
        what="all operation histories to depth %d; isolation of objects" % depth), "CASE")]
    nd = len(datasets())
    jobs = [(k, h) for i, h in enumerate(hists) for k in (range(nd) if ctx.thorough else [i % nd])]
    rng = ctx.rng
    fields = list(DOM)
    for i in range(ctx.n(60, 800)):
        h, n = [], 1
        for _ in range(int(rng.integers(6, 14))):
            op = rng.choice(["set", "read", "plot", "plot_cog", "imshow", "copy", "deepcopy", "pickle", "correct", "mutate"],
                            p=[0.4, 0.15, 0.06, 0.06, 0.03, 0.07, 0.05, 0.03, 0.1, 0.05])
            e = {"op": str(op), "h": int(rng.integers(1, n + 1))}
            if op == "set":
                e["field"], e["val"] = str(rng.choice(fields)), int(rng.integers(0, 2))
            if op == "mutate":
                e["h"] = 0
            if op in ("copy", "deepcopy", "correct", "pickle"):
                if n == 5:
                    continue
                n += 1
            h.append(e)
        jobs.append((i % nd, h))
    traces = ctx.pmap(replay, jobs)
    # settings the specification can ask for: the domain plus every corrected epsilon
    eps = {k: set(DOM["eps"]) for k in range(nd)}
    for t in traces:
        for e in t:
            if e["op"] == "correct" and "val" in e and e["ok"]:
                x = e["val"]
                if x != "#nan":
                    eps[t[0]["data"]].add(val(x))
    ents = [(k, dict(eta=a, eps=b, epsf=c, tff=d, kind=i, num=j)) for k in range(nd)
            for a, b, c, d, i, j in itertools.product(DOM["eta"], sorted(eps[k]), DOM["epsf"], DOM["tff"], (0, 1), (0, 1))]
    fresh = ctx.pmap(fresh_entry, ents)
    path = os.path.join(ctx.dir, "fresh.json")
    with open(path, "w") as f:
        json.dump(fresh, f)
    ctx.judge("C08", traces, "histories of settings, reads, plots, copies, corrections and input changes", env={"VF_FRESH": path})


def val(x):
    if isinstance(x, str):
        m, e = x[1:].split("b")
        return int(m) * 2.0 ** int(e)
    return float(x)
