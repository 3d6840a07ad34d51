"""setup_cmd: compiles the Java arithmetic, compares it exhaustively with its TLA+ definitions, parses every specification."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf  # noqa: E402

os.environ.pop("VF_REPO", None)
ctx = vf.Ctx("C00")
try:
    with open(os.path.join(vf.VERIF, "spec", "RatSelf.cfg")) as f:
        ctx.model("RatSelf", f.read(), what="Java arithmetic agrees with the TLA+ definitions")
    ctx.model("EllipseSelf", "INIT Init\nNEXT Next\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n", what="Java overlap agrees with the TLA+ definition")
    print("self checks: %d states" % ctx.states)
    mods = sorted(f for f in os.listdir(os.path.join(vf.VERIF, "spec")) if f.endswith(".tla") and f not in ("RatSelf.tla", "EllipseSelf.tla"))
    r = subprocess.run(["java", "-cp", vf.TLA + ":" + vf.COMM, "tla2sany.SANY"] + mods,
                       cwd=os.path.join(vf.VERIF, "spec"), capture_output=True, text=True)
    bad = r.returncode != 0 or "*** Errors" in r.stdout
    print(r.stdout[-3000:] if bad else "%d modules parsed" % len(mods))
    sys.exit(1 if bad else 0)
finally:
    ctx.cleanup()
