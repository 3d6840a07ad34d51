"""C15: replay of every enumerated history (and long random ones) of a PSF-convolved model."""
import copy
import hashlib
import json
import os

import numpy as np
import c14
import vf

PSF = c14.PSFS["norm"]
REGIONS = [(0, 0, 4, 4, "f"), (2, 0, 4, 4, "f"), (0, 2, 4, 4, "f"), (0, 0, 4, 3, "f"), (0, 0, 3, 4, "f"),
           (-1, -2, 5, 2, "i"), (0, 0, 4, 4, "corners"), (0, 0, 4, 4, "rows"), (0, 0, 6, 6, "f"),
           (0.3, 0, 4, 4, "f"), (0, -0.01, 4, 4, "f")]


def region(k):
    x0, y0, nx, ny, kind = REGIONS[k - 1]
    x, y = np.meshgrid(np.arange(x0, x0 + nx), np.arange(y0, y0 + ny))
    if kind == "f":
        x, y = x.astype(float), y.astype(float)
    if kind == "corners":
        x, y = np.array([0.0, 3, 0, 3, 2]), np.array([0.0, 0, 3, 3, 1])
    if kind == "rows":
        x, y = x[[3, 0, 2]].astype(float), y[[3, 0, 2]].astype(float)
    return x, y


PARS = [(1.7, 0.0), (3.2, 0.0), (1.7, 30.0)]      # x_0, psf_pa


def fresh_model(par, cfg):
    import petrofit as pf
    from astropy.modeling import models

    b = models.Sersic2D(amplitude=2, r_eff=2, n=1.3, x_0=PARS[par][0], y_0=2.4, ellip=0.3, theta=0.4)
    psf = c14.value(cfg["psf"])
    po = c14.value(cfg["po"])
    m = pf.PSFConvolvedModel2D(b, psf=PSF if po is not None and psf is None else psf, oversample=c14.value(cfg["os"]), psf_oversample=po)
    if psf is None and m.psf is not None:
        m.psf = None
    m.psf_pa = PARS[par][1]
    return m


def img_json(v):
    return vf.enc(np.asarray(v, dtype=float))


def key(img):
    return hashlib.sha256(json.dumps(img).encode()).hexdigest()[:20]


def replay(hist):
    heap = [fresh_model(0, hist[0]["cfg"])]
    tr, held, imgs = [{"op": "start", "cfg": hist[0]["cfg"]}], [], {}
    hist = list(hist[1:]) + [{"op": "evalall"}]
    for e0 in hist:
        todo = [e0]
        if e0["op"] == "evalall":
            todo = [{"op": "eval", "h": i + 1, "v": r} for i in range(len(heap)) for r in (1, 3, 4)]
        for e in todo:
            op, m = e["op"], heap[e["h"] - 1]
            ev = {"op": op, "h": e["h"], "v": e.get("v", 0), "x": e.get("x", 0)}

            def act():
                if op == "eval":
                    x, y = region(e["v"])
                    b = vf.digest([x, y])
                    ev["before"] = ev["after"] = b
                    try:
                        v = m(x, y)
                    finally:
                        ev["after"] = vf.digest([x, y])
                    held.append((v, vf.digest(v)))
                    j = img_json(v)
                    k = key(j)
                    imgs[k] = j
                    ev["img"] = k
                elif op == "par":
                    m.x_0, m.psf_pa = PARS[e["v"]]
                elif op in ("oversample", "psf_oversample", "psf"):
                    setattr(m, op, c14.value(e["x"]))
                elif op == "cache":
                    m.cache_grid = bool(e["v"])
                    ev["got"] = int(m.cache_grid)
                elif op == "badcache":
                    m.cache_grid = (1, None, "True", 0, 2, "")[len(tr) % 6]
                elif op == "clear":
                    m.clear_cached_grid()
                elif op == "copy":
                    heap.append(m.copy())
                elif op == "deepcopy":
                    heap.append(copy.deepcopy(m))

            ok, r = vf.raw(act)
            ev["ok"] = int(ok)
            if not ok:
                ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
            tr.append(ev)
            if not ok and op in ("copy", "deepcopy"):
                break
    tr.append({"op": "held", "before": [d for _, d in held], "after": [vf.digest(v) for v, _ in held]})
    return tr, imgs


def fresh_entry(a):
    par, cfg, k = a
    x, y = region(k)
    return img_json(fresh_model(par, cfg)(x, y))


def run(ctx):
    nreg = ctx.n(5, 8)
    hists = vf.records(ctx.model(
        "C15Model", "CONSTANTS Depth = 3\nMaxObj = 2\nRegions = %d\nINIT Init\nNEXT Next\nINVARIANT Emit AllValid\n"
        "PROPERTIES Inert\nCHECK_DEADLOCK FALSE\n" % nreg, what="all histories to depth 3 from two configurations"), "CASE")
    rng = ctx.rng
    byop = {}
    for h in hists:
        for e in h[1:]:
            byop.setdefault((e["op"], e["h"]), {})[json.dumps(e, sort_keys=True)] = e
    for i in range(ctx.n(80, 2500)):
        h, n = [hists[int(rng.integers(len(hists)))][0]], 1
        for _ in range(int(rng.integers(6, 16))):
            op = str(rng.choice(["eval", "par", "oversample", "psf_oversample", "psf", "cache", "clear", "copy"],
                                p=[0.36, 0.12, 0.2, 0.1, 0.08, 0.06, 0.04, 0.04]))
            if op == "copy":
                if n == 2:
                    continue
                n = 2
                h.append({"op": "copy", "h": 1, "v": 0, "x": h[0]["cfg"]["po"]})
                continue
            k = int(rng.integers(1, n + 1))
            es = list(byop[(op, 1)].values())
            e = dict(es[int(rng.integers(len(es)))], h=k)
            if op == "eval":
                e["v"] = int(rng.integers(1, len(REGIONS) + 1))
            if op in ("par", "cache"):
                e["v"] = int(rng.integers(0, 3 if op == "par" else 2))
            h.append(e)
        hists.append(h)
    res = ctx.pmap(replay, hists)
    images, idx, need = [], {}, {}

    def intern(j):
        k = key(j)
        if k not in idx:
            images.append(j)
            idx[k] = len(images)
        return idx[k]

    for tr, imgs in res:
        for j in imgs.values():
            intern(j)
        for e in tr:
            if "img" in e:
                e["img"] = idx[e["img"]]
    traces = [t for t, _ in res]
    os_all = {json.dumps(e["x"], sort_keys=True): e["x"] for (o, _), d in byop.items() if o == "oversample" for e in d.values()}
    none = {"t": "none", "v": 0, "s": "", "e": []}
    psf1, psf2 = ({"t": "psf", "v": i + 1, "s": n, "e": []} for i, n in enumerate(list(c14.PSFS)[:2]))
    two = {"t": "int", "v": 2, "s": "", "e": []}
    ents = []
    for par in range(len(PARS)):
        for o in os_all.values():
            for po in (none, two):
                if po is two and o["t"] == "none":
                    continue
                for psf in (none, psf1, psf2):
                    for r in range(1, len(REGIONS) + 1):
                        ents.append((par, {"os": o, "po": po, "psf": psf}, r))
    fresh = [{"par": p, "cfg": c, "region": r, "img": intern(j)}
             for (p, c, r), j in zip(ents, ctx.pmap(fresh_entry, ents))]
    path = os.path.join(ctx.dir, "fresh.json")
    with open(path, "w") as f:
        json.dump({"images": images, "fresh": fresh}, f)
    ctx.judge("C15", traces, "histories of evaluations and changes", env={"VF_FRESH": path})
    ctx.exhaustive = False
