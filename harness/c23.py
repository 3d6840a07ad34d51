"""C23: every placement of small cutouts on small images, and random larger ones."""
import numpy as np
import vf


def one(rng, nx, ny, w, h, x, y, kind, kt):
    import petrofit as pf

    mk = {"f": lambda s: np.round(rng.normal(0, 9, s) * 8) / 8, "f4": lambda s: (np.round(rng.normal(0, 9, s) * 8) / 8).astype(np.float32),
          "i": lambda s: rng.integers(-50, 99, s), "nan": lambda s: np.where(rng.random(s) < 0.2, np.nan, rng.integers(-9, 9, s)),
          "view": lambda s: rng.integers(-9, 9, (s[0] * 2, s[1] + 1)).astype(float)[::2, 1:], "T": lambda s: rng.normal(0, 9, s[::-1]).T}
    im, t = mk[kind]((ny, nx)), mk[kt]((h, w))
    ev = {"op": "subtract", "x": x, "y": y, "im0": vf.digest(im), "t0": vf.digest(t), "im": vf.enc(im), "t": vf.enc(t)}
    ok, r = vf.raw(pf.cutout_subtract, im, t, x, y)
    ev["ok"] = int(ok)
    if ok:
        ev["out"] = vf.enc(np.asarray(r))
        ev["shared"] = int(np.shares_memory(np.asarray(r), im) or np.shares_memory(np.asarray(r), t))
    else:
        ev["exc"] = type(r).__name__ + ":" + str(r)[:60].replace("#", "")
    ev["im1"], ev["t1"] = vf.digest(im), vf.digest(t)
    return ev


def block(a):
    nx, ny, d, seed = a
    rng = np.random.default_rng(seed)
    tr = []
    for w in range(1, d["t"] + 1):
        for h in range(1, d["t"] + 1):
            for x in range(d["x0"], d["x1"] + 1):
                for y in range(d["x0"], d["x1"] + 1):
                    if x < -w or y < -h or x > nx + w or y > ny + h:
                        continue
                    if (nx, ny) != (5, 4) and rng.random() > 0.34:   # the whole product at one image size
                        continue
                    tr.append(one(rng, nx, ny, w, h, x, y, "f", "f"))
    return tr


def rand(seed):
    rng = np.random.default_rng(seed)
    nx, ny, w, h = (int(v) for v in rng.integers(1, 18, 4))
    x, y = int(rng.integers(-w, nx + w)), int(rng.integers(-h, ny + h))
    kinds = ["f", "f4", "i", "nan", "view", "T"]
    return [one(rng, nx, ny, w, h, x, y, str(rng.choice(kinds)), str(rng.choice(kinds)))]


def run(ctx):
    cs = vf.records(ctx.model("C23Model", "CONSTANTS MaxIm = 5\nMaxT = %d\nINIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
                              % ctx.n(4, 6), what="image sizes"), "CASE")
    cs.sort(key=str)
    s = ctx.rng.integers(0, 2**31, len(cs))
    ctx.judge("C23", ctx.pmap(block, [(c["nx"], c["ny"], c["d"], int(k)) for c, k in zip(cs, s)]), "all placements")
    ctx.judge("C23", ctx.pmap(rand, [int(k) for k in ctx.rng.integers(0, 2**31, ctx.n(1500, 20000))]), "random images and types")
