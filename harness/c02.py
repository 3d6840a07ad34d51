"""C02: histories of masking calls that share lists, maps, images and catalogue sources."""
import numpy as np
import vf


class World:
    def __init__(self, rng, small=False):
        from astropy.nddata import CCDData
        from photutils.segmentation import SegmentationImage, SourceCatalog

        ny, nx = (4, 5) if small else (int(rng.integers(3, 12)), int(rng.integers(3, 12)))
        n = 3 if small else int(rng.integers(3, 7))
        seg = np.zeros((ny, nx), rng.choice([np.int32, np.int64, np.uint8]) if not small else int)
        while len(np.unique(seg)) < n + 1:
            seg = rng.integers(0, n + 1, (ny, nx)).astype(seg.dtype)
            if rng.random() < 0.5:
                seg[rng.random((ny, nx)) < 0.3] = 0
        if not small and rng.random() < 0.3:       # no background at all
            seg[seg == 0] = 1
        self.n = n
        self.segm = SegmentationImage(seg)
        v = np.round(rng.normal(20, 9, (ny, nx)) * 8) / 8
        if rng.random() < 0.5:
            v[rng.random((ny, nx)) < 0.1] = np.nan
        big = np.zeros((2 * ny, nx + 1))
        big[::2, 1:] = v
        self.images = {"float": v, "float32": v.astype(np.float32), "int": rng.integers(-30, 300, (ny, nx)), "ccd": CCDData(v.copy(), unit="adu"),
                       "ccdint": CCDData(rng.integers(-9, 9, (ny, nx)), unit="adu"), "strided": big[::2, 1:], "big-endian": v.astype(">f4")}
        cat = SourceCatalog(np.nan_to_num(v) + 100, self.segm)
        self.cat = {int(s.label): s for s in cat}
        self.whole = cat
        self.lists = {"a": [1], "b": [3, 1], "e": [], "r": [2, 2], "x": [7], "z": [0], "m": [self.cat[2], 1], "n": [np.int64(3), np.uint8(2), np.uint64(3)]}
        if not small:
            for k in "cd":
                self.lists[k] = [int(t) for t in rng.integers(0, n + 2, int(rng.integers(0, 5)))]
        self.results = []

    def labels(self, lst):
        return [int(getattr(s, "label", s)) for s in lst]

    def source(self, src):
        """argument and the labels it asks for"""
        k, _, v = src.partition("-")
        if k == "list":
            return self.lists[v], self.labels(self.want[v])
        if k == "mixed":
            return self.lists["m"], [2, 1]
        v = int(v)
        return {"label": v, "numpy": [np.int32, np.uint8, np.int64, np.uint32, self.segm.data.dtype.type][len(self.results) % 5](v), "cat": self.cat.get(v), "slice": self.whole[v - 1:v]}[k], [v]

    def digest(self):
        return vf.digest([np.array(self.segm.data), [im if isinstance(im, np.ndarray) else [np.array(im.data), str(im.unit), None if im.mask is None else im.mask]
                                                     for im in self.images.values()]])

    def read(self):
        return {k: self.labels(v) + [-1] for k, v in self.lists.items()}

    def start(self):
        self.want = {k: list(v) for k, v in self.lists.items()}
        data = {k: vf.enc(np.array(v) if isinstance(v, np.ndarray) else np.array(v.data)) for k, v in self.images.items()}
        return {"op": "heap", "heap": {"seg": vf.enc(np.array(self.segm.data)), "images": data}, "lists": self.read(), "digest": self.digest()}


def call(w, c):
    import petrofit as pf

    src, labels = w.source(c["src"])
    bg = bool(c["bg"])
    ev = dict(c, labels=labels)
    fills = {"default": None, "zero": 0, "value": -7.5}
    if c["op"] == "mask":
        ok, r = vf.raw(pf.segm_mask, src, w.segm, *([bg] if bg or c["src"][-1] in "a1" else []))
        ev["ok"] = int(ok)
        if ok:
            ev.update(dtype=str(getattr(r, "dtype", type(r).__name__)), out=vf.enc(np.asarray(r).astype(int)) if r is not None else "None")
    else:
        img = w.images[c["img"]]
        kw = {} if c["fill"] == "default" and bg else {"fill": fills[c["fill"]]}
        if bg:
            kw["mask_background"] = True
        ev["fillvalue"] = vf.enc(fills[c["fill"]] if fills[c["fill"]] is not None else 0)
        ok, r = vf.raw(pf.masked_segm_image, src, img, w.segm, **kw)
        ev["ok"] = int(ok)
        if ok:
            a = r if isinstance(r, np.ndarray) else r.data
            b = img if isinstance(img, np.ndarray) else img.data
            ev.update(out=vf.enc(np.array(a)), same=int(type(r) is type(img) and getattr(r, "unit", 0) == getattr(img, "unit", 0)),
                      shared=int(np.shares_memory(a, b)))
    if ok:
        a = r if isinstance(r, np.ndarray) else r.data if r is not None else np.zeros(0)
        w.results.append((a, vf.digest(np.array(a))))
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:80].replace("#", "")
    ev["lists"], ev["digest"] = w.read(), w.digest()
    ev["earlier"] = sum(vf.digest(np.array(a)) != d for a, d in w.results)
    return ev


def history(job):
    h, seed = job
    w = World(np.random.default_rng(seed), small=True)
    return [w.start()] + [call(w, c) for c in h]


def rand(job):
    seed, n = job
    rng = np.random.default_rng(seed)
    w = World(rng)
    tr = [w.start()]
    for _ in range(n):
        src = str(rng.choice(["list-" + k for k in w.lists] + ["label-%d" % k for k in range(w.n + 2)] + ["numpy-%d" % k for k in range(w.n + 1)]
                             + ["cat-%d" % k for k in w.cat] + ["slice-%d" % (k + 1) for k in range(w.n)] + ["mixed"]))
        if src.startswith("slice"):   # labels need not be consecutive
            k = int(src[6:])
            if k > len(w.whole) or int(w.whole[k - 1].label) != k:
                continue
        op = str(rng.choice(["mask", "image"]))
        tr.append(call(w, {"op": op, "src": src, "bg": int(rng.integers(2)), "img": str(rng.choice(list(w.images))) if op == "image" else "none",
                           "fill": str(rng.choice(["default", "zero", "value"])) if op == "image" else "none"}))
    return tr


def run(ctx):
    import petrofit  # noqa: F401

    for ln, wide in ((1, True), (2, False)) + (((3, False),) if ctx.thorough else ()):
        cs = vf.records(ctx.model("C02Model", "CONSTANTS Len1 = %d\nWide = %s\nINIT Init\nNEXT Next\nINVARIANT Emit\nINVARIANT Pure\nCHECK_DEADLOCK FALSE\n"
                                  % (ln, str(wide).upper()), what="all histories of %d calls" % ln), "CASE")
        cs.sort(key=str)
        s = ctx.rng.integers(0, 2**31, len(cs))
        ctx.judge("C02", ctx.pmap(history, [(c, int(k)) for c, k in zip(cs, s)]), "all histories of %d calls" % ln)
    ctx.judge("C02", ctx.pmap(rand, [(int(k), 12) for k in ctx.rng.integers(0, 2**31, ctx.n(400, 6000))]), "random longer histories")
