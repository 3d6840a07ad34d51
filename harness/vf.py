"""Harness library: encodes values exactly, runs the code under test, runs TLC.

The harness holds no oracle.  It transports calls, results and the state of the
arguments to TLC, whose specification (spec/*.tla) decides.
"""
import hashlib
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ encoding
def num(x):
    """Exact JSON form of a number: a small int, or a numeral string for module Rat."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return x if abs(x) < 2**31 else "#%d" % x
    x = float(x)
    if math.isnan(x):
        return "#nan"
    if math.isinf(x):
        return "#inf" if x > 0 else "#-inf"
    if x == int(x) and abs(x) < 2**31:
        return int(x)
    n, d = x.as_integer_ratio()
    if d == 1:
        e = (n & -n).bit_length() - 1
        return "#%db%d" % (n >> e, e)
    return "#%db%d" % (n, 1 - d.bit_length())


def enc(v):
    """Encode a value for the specification."""
    if v is None:
        return "None"
    if isinstance(v, str):
        return "'" + v if v.startswith("#") else v
    if isinstance(v, (bool, np.bool_, int, float, np.integer, np.floating)):
        return num(v)
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()} or {"_": 0}
    if isinstance(v, np.ma.MaskedArray):
        v = v.astype(float).filled(np.nan)
    if hasattr(v, "unit") and hasattr(v, "value"):
        return enc(v.value)
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return enc(v.item())
        return [enc(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return "?" + type(v).__name__


def call(fn, *args, **kwargs):
    """Outcome of a call: {"ok": 1, "v": value} or {"ok": 0, "exc": name, "v": "exc"}; value encoded."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn(*args, **kwargs)
        return {"ok": 1, "v": enc(r)}
    except Exception as e:  # every exception of the code under test is an outcome
        return {"ok": 0, "v": "exc", "exc": type(e).__name__, "msg": str(e)[:100].replace("#", "")}


def raw(fn, *args, **kwargs):
    """(ok, value or exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return True, fn(*args, **kwargs)
    except Exception as e:
        return False, e


def digest(v):
    """Digest of the observable content of an argument (array, list, table, model, ...)."""
    h = hashlib.sha256()

    def put(x):
        if x is None or isinstance(x, (str, bool, int, float, complex)):
            h.update(repr(x).encode())
        elif isinstance(x, np.ma.MaskedArray):
            h.update(b"ma")
            put(np.asarray(x.data))
            put(np.ma.getmaskarray(x))
        elif isinstance(x, np.ndarray):
            h.update(str((x.dtype.str, x.shape)).encode())
            if x.dtype == object:
                for i in x.ravel():
                    put(i)
            else:
                h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, (np.generic,)):
            h.update(x.dtype.str.encode() + x.tobytes())
        elif isinstance(x, dict):
            for k in x:
                put(k)
                put(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(type(x).__name__.encode())
            for i in x:
                put(i)
        else:
            put_obj(x)

    def put_obj(x):
        n = type(x).__name__
        h.update(n.encode())
        if n in ("Table", "QTable"):
            put(list(x.colnames))
            for c in x.colnames:
                put(np.array(x[c]))
        elif n == "SegmentationImage":
            put(np.array(x.data))
        elif n == "SourceCatalog":
            t = x.to_table()
            for c in ("label", "xcentroid", "ycentroid", "area", "segment_flux", "max_value"):
                put(np.array(getattr(t[c], "value", t[c])))
        elif n == "CCDData":
            put(np.array(x.data))
        elif n == "Cutout2D":
            put(np.array(x.data))
        elif n == "Header":
            put([(k, str(x[k])) for k in x])
        elif hasattr(x, "param_names"):
            put(list(x.param_names))
            put(np.array(x.parameters, dtype=float))
            put({k: v for k, v in x.fixed.items()})
            put({k: tuple(v) for k, v in x.bounds.items()})
        elif hasattr(x, "unit") and hasattr(x, "value"):
            put(str(x.unit))
            put(x.value)
        elif hasattr(x, "__dict__"):
            for k in sorted(vars(x)):
                put(k)
                put(vars(x)[k])
        else:
            h.update(repr(x).encode())

    put(v)
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ TLC
class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.rng = np.random.default_rng([self.seed, int(prop[1:])])
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.runs = []
        self.violations = []  # (clauses, trace, index)
        self.samples = []
        self.assumptions = []
        self.exhaustive = False
        self._java = None

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- java ---------------------------------------------------------------
    def java(self):
        if self._java is None:
            out = os.path.join(self.dir, "classes")
            os.mkdir(out)
            src = os.path.join(VERIF, "java", "vfx")
            r = subprocess.run(
                ["javac", "-nowarn", "-d", out, "-cp", TLA]
                + sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java")),
                capture_output=True, text=True)
            if r.returncode != 0:
                raise MachineryError("javac: " + r.stderr)
            self._java = out
        return self._java

    def tlc(self, module, cfg, env=None, args=(), workers=8, timeout=800, xmx="6g"):
        """Run TLC on spec/<module>.tla with the given configuration text; returns its output lines."""
        classes = self.java()
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        spec = os.path.join(VERIF, "spec")
        for f in os.listdir(spec):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(spec, f), d)
        with open(os.path.join(spec, "Rat.tla")) as f:
            ref = f.read().replace("MODULE Rat -", "MODULE RatRef -")
        with open(os.path.join(d, "RatRef.tla"), "w") as f:
            f.write(re.sub(r"(?m)^N\(a\) == .*$", "N(a) == a", ref))
        with open(os.path.join(spec, "Ellipse.tla")) as f:
            ref = f.read().replace("MODULE Ellipse -", "MODULE EllipseRef -")
        with open(os.path.join(d, "EllipseRef.tla"), "w") as f:
            f.write(ref)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m", "-XX:ParallelGCThreads=4",
               "-Djava.io.tmpdir=" + d,
               "-Dtlc2.overrides.TLCOverrides=vfx.RatOverrides:vfx.EllipseOverrides:tlc2.overrides.TLCOverrides",
               "-cp", ":".join([classes, TLA, COMM]), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        finally:
            pass
        out = r.stdout
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, out, r.stderr

    def model(self, module, cfg, env=None, what="", **kw):
        """Model-check a specification module (no implementation involved); returns printed records."""
        rc, out, err = self.tlc(module, cfg, env=env, **kw)
        st = stats(out)
        if st is None or "Model checking completed. No error has been found." not in out:
            raise MachineryError("TLC on %s (exit %s):\n%s\n%s" % (module, rc, brief(out), err[-2000:]))
        self.states += st[1]
        self.transitions += st[0]
        self.runs.append({"module": module, "what": what, "states": st[1], "generated": st[0]})
        return prints(out)

    def judge(self, module, traces, what="", env=None, timeout=800, intern=None):
        """Validate recorded traces (lists of events) against trace specification `module`.

        Every event must be consumed; the specification prints the clauses an event breaks.
        With intern="key", the elements of the list e[key] of each event go to a table (VF_TABLE) once."""
        if not traces:
            raise MachineryError("no traces for " + module)
        nev = sum(len(t) for t in traces)
        path = os.path.join(self.dir, "traces-%d.json" % len(self.runs))
        e, sent = {"VF_TRACES": path}, traces
        if intern:
            table, index = [], {}

            def number(x):
                k = json.dumps(x, sort_keys=True)
                if k not in index:
                    table.append(x)
                    index[k] = len(table)
                return index[k]

            sent = [[{**ev, intern: [number(x) for x in ev[intern]]} if intern in ev else ev for ev in t] for t in traces]
            e["VF_TABLE"] = path + ".table"
            with open(path + ".table", "w") as f:
                json.dump(table, f)
        with open(path, "w") as f:
            json.dump(sent, f)
        e.update(env or {})
        cfg = "INIT Init\nNEXT Next\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n"
        rc, out, err = self.tlc(module, cfg, env=e, timeout=timeout)
        st = stats(out)
        if st is None or "Model checking completed. No error has been found." not in out:
            raise MachineryError("TLC on %s (exit %s):\n%s\n%s" % (module, rc, brief(out), err[-2000:]))
        if st[1] != nev + len(traces):
            raise MachineryError("%s: %d events in %d traces but %d states" % (module, nev, len(traces), st[1]))
        os.unlink(path)
        self.states += st[1]
        self.transitions += nev
        self.runs.append({"module": module, "what": what, "traces": len(traces), "events": nev})
        bad = {}
        for p in prints(out):
            m = re.match(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{(.*)\}\s*>>$', p)   # TLC wraps long lines
            if not m and '"BAD"' in p:
                raise MachineryError("unreadable report " + p)
            if m:
                clauses = sorted(c.strip().strip('"') for c in m.group(3).split(",") if c.strip())
                bad[(int(m.group(1)), int(m.group(2)))] = clauses
        nbadtr = len({t for t, _ in bad})
        self.validated += len(traces) - nbadtr
        for (t, l), clauses in sorted(bad.items()):
            self.violations.append((clauses, traces[t - 1], l, module))
        if traces and len(self.samples) < 6:
            k = len(traces) // 2
            s = json.dumps(traces[k])
            self.samples.append({"module": module, "what": what, "trace": json.loads(s) if len(s) < 2500 else s[:2500] + "..."})
        return bad

    def pmap(self, fn, jobs, workers=8):
        """fn over jobs in forked worker processes; order kept."""
        import multiprocessing as mp

        jobs = list(jobs)
        if not jobs:
            return []
        with mp.get_context("fork").Pool(min(workers, len(jobs))) as pool:
            return pool.map(fn, jobs, chunksize=max(1, min(64, len(jobs) // (4 * workers))))

    # -- finish -------------------------------------------------------------
    def finish(self):
        known = known_findings(self.prop)
        ev_dir = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        new, seen = [], set()
        for clauses, trace, l, module in self.violations:
            key = trace[l - 1].get("key") if isinstance(trace[l - 1], dict) else None
            k = next((f for f in known if key is not None and f["key"] == key and set(clauses) <= set(f["clauses"])), None)
            if k:
                if k["key"] not in seen:
                    seen.add(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                new.append((clauses, trace, l, module))
        rdir = os.path.join(ev_dir, "replay")
        if new:
            os.makedirs(rdir, exist_ok=True)
        for i, (clauses, trace, l, module) in enumerate(new[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (self.prop, i))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "spec": module, "broken": clauses, "event": l,
                           "trace": trace}, f, indent=1)
            print("VIOLATION property=%s replay=%s  (%s breaks %s)" % (self.prop, path, module, ", ".join(clauses)))
        if len(new) > 5:
            print("... and %d more events that break the specification" % (len(new) - 5))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples[:6], "runs": self.runs, "exhaustive": self.exhaustive,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1), "violations": len(new),
        }
        s = json.dumps(ev, indent=1)
        while len(s) > 60000 and ev["coverage"]["samples"]:
            ev["coverage"]["samples"].pop()
            s = json.dumps(ev, indent=1)
        with open(os.path.join(ev_dir, self.prop + ".json"), "w") as f:
            f.write(s)
        print("%s: %d states, %d transitions, %d traces validated, %d violations, %.1f s" % (
            self.prop, self.states, self.transitions, self.validated, len(new), time.time() - self.t0))
        return 1 if new else 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def brief(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "<<\"CASE")))[-4000:]


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, 0 states left on queue", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else None


def prints(out):
    """Lines printed by the specification (PrintT of tuples, possibly wrapped over lines)."""
    res, buf = [], None
    for line in out.splitlines():
        if buf is None:
            if line.startswith("<<") or line.startswith('"{'):
                buf = line
            else:
                continue
        else:
            buf += " " + line.strip()
        if buf.startswith('"') or buf.count("<<") == buf.count(">>"):
            res.append(buf)
            buf = None
    return res


def records(lines, tag):
    """JSON records printed by PrintT(<<tag, ToJson(x)>>)."""
    res = []
    for p in lines:
        m = re.match(r'<<\s*"%s",\s*"(.*)"\s*>>$' % re.escape(tag), p)
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d["property"] == prop:
                    res.append(d)
    return res


def check_repo():
    import petrofit

    p = os.path.dirname(os.path.abspath(petrofit.__file__))
    if p != os.path.join(REPO, "petrofit"):
        raise MachineryError("petrofit is imported from " + p)
