"""C16: histories over heaps of base models, PSF wrappers, sub-models, copies and fits."""
import numpy as np
import vf

XY = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1)]


def bases():
    from astropy.modeling import models

    def g():
        return models.Gaussian2D(amplitude=3, x_mean=2, y_mean=1.25, x_stddev=1.5, y_stddev=0.8, theta=0.3)

    return [g(), g() + models.Const2D(amplitude=0.5)], ["g", "c"]


def pair(b):
    return [None if v is None else float(v) for v in b]


def numerals(v):
    return [x if x == "None" else int(x) for x in v] if isinstance(v, list) else v


def read(m):
    x, y = np.meshgrid(np.arange(3.0), np.arange(2.0))
    names = list(m.param_names)
    return vf.enc({
        "names": names,
        "vals": [float(np.ravel(getattr(m, n).value)[0]) for n in names],
        "pars": [float(v) for v in m.parameters],
        "fix": [int(bool(m.fixed[n])) for n in names],
        "fix2": [int(bool(getattr(m, n).fixed)) for n in names],
        "bnd": [pair(m.bounds[n]) for n in names],
        "bnd2": [pair(getattr(m, n).bounds) for n in names],
        "img": np.ravel(m(x, y)),
    })


def apply(heap, e, way):
    import copy

    import petrofit as pf

    m = heap[e["h"] - 1]
    op, p, v = e["op"], e["p"], e["v"]
    if op == "fit":
        y, x = np.mgrid[0:6, 0:6]
        img = 4 * np.exp(-((x - 2.2) ** 2 + (y - 2.1) ** 2) / 4) + 0.1
        f, _ = pf.fit_model(img, m, maxiter=4)
        heap.append(f)
        return
    n = m.param_names[p - 1]
    if op == "wrap":
        heap.append(pf.PSFConvolvedModel2D(m))
    elif op == "wrapfix":
        heap.append(pf.PSFConvolvedModel2D(m, fixed={n: True}))
    elif op == "wrapbnd":
        heap.append(pf.PSFConvolvedModel2D(m, bounds={n: tuple(v)}))
    elif op == "sub":
        heap.append(m.model)
    elif op == "copy":
        heap.append(m.copy() if way % 2 == 0 else copy.deepcopy(m))
    elif op == "par":
        if way == 0:
            setattr(m, n, v)
        elif way == 1:
            getattr(m, n).value = v
        else:
            a = np.array(m.parameters)
            a[p - 1] = v
            m.parameters = a
    elif op == "fix":
        if way == 0:
            m.fixed[n] = bool(v)
        else:
            getattr(m, n).fixed = bool(v)
    elif op == "bnd":
        b = tuple(None if x == "None" else x for x in v)
        if way == 0:
            m.bounds[n] = b
        else:
            getattr(m, n).bounds = b


def replay(a):
    hist, k = a
    heap, kinds = bases()
    tr = [{"op": "start", "objs": [read(m) for m in heap], "kinds": kinds}]
    for i, e in enumerate(hist):
        ev = dict(e, v=vf.enc(e["v"]))
        ok, r = vf.raw(apply, heap, e, (k + i) % 3)
        if ok:
            ok, r = vf.raw(lambda: [read(m) for m in heap])
        ev["ok"] = int(ok)
        ev["xy"] = XY
        if ok:
            ev["objs"] = r
        tr.append(ev)
        if not ok:
            ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
            break
    return tr


def random_history(rng):
    ts = ["base", "base"]
    h = []
    np_ = [6, 7]
    for _ in range(int(rng.integers(5, 13))):
        op = str(rng.choice(["par", "fix", "bnd", "wrap", "wrapfix", "wrapbnd", "sub", "copy", "fit"],
                            p=[0.3, 0.1, 0.1, 0.17, 0.04, 0.04, 0.12, 0.08, 0.05]))
        cand = [i for i, t in enumerate(ts) if (t == "wrap") == (op in ("sub", "fit")) or op in ("par", "fix", "bnd", "copy")]
        if not cand or (len(ts) >= 7 and op not in ("par", "fix", "bnd")):
            continue
        k = int(rng.choice(cand))
        # non-linear widths and angles stay positive, constant and psf_pa included
        p = int(rng.integers(1, np_[k] + 1)) if rng.random() < 0.6 else 1 + int(rng.integers(2))    # (the same ones again)
        v = 0
        if op == "par":
            v = [2, 1.75, 0.5, 3, 2.5, 1.125, 4][int(rng.integers(7))]
            if ts[k] == "wrap" and p == np_[k]:
                v = 0.5
        if op == "fix":
            v = int(rng.integers(2))
        if op in ("bnd", "wrapbnd"):
            v = [[0.25, 9], ["None", 9.5], [0.125, "None"], ["None", "None"]][int(rng.integers(3 if op == "wrapbnd" else 4))]
        if op == "wrapbnd":
            v = [0.25, 9.25]
        h.append({"op": op, "h": k + 1, "p": p, "v": v})
        if op in ("wrap", "wrapfix", "wrapbnd"):
            ts.append("wrap")
            np_.append(np_[k] + 1)
        elif op == "sub":
            ts.append("base")
            np_.append(np_[k] - 1)
        elif op in ("copy", "fit"):
            ts.append(ts[k])
            np_.append(np_[k])
    return h


def run(ctx):
    hists = vf.records(ctx.model(
        "C16Model", "CONSTANTS Depth = %d\nMaxObj = 6\nINIT Init\nNEXT Next\nINVARIANT Emit RoundTrip\n"
        "PROPERTIES Isolated\nCHECK_DEADLOCK FALSE\n" % ctx.n(2, 3), what="histories over six starting heaps"), "CASE")
    hists = [[dict(e, v=numerals(e["v"])) for e in h[0] + h[1:]] for h in hists]
    if ctx.thorough:
        k = ctx.rng.permutation(len(hists))[:9000]
        hists = [hists[i] for i in sorted(k)]
    hists += [random_history(ctx.rng) for _ in range(ctx.n(500, 5000))]
    ctx.judge("C16", ctx.pmap(replay, [(h, i) for i, h in enumerate(hists)]), "heaps of real models", intern="objs")
