"""X01: the Zed extension. The code under test deletes directories, so it runs as an
unprivileged user whose only files are those of a scratch directory."""
from vlib import *
import c_core

NOBODY = 65534

def as_nobody(chk, b, cmd, label):
    """like vlib.harness, but as nobody"""
    p = subprocess.run([b, *map(str, cmd)], capture_output=True, text=True, timeout=700, user=NOBODY, group=NOBODY, extra_groups=[],
                       env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}, cwd="/", encoding="utf-8", errors="replace")
    outs = [json.loads(l[4:]) for l in p.stdout.splitlines() if l.startswith("OUT ")]
    bads = [json.loads(l[4:]) for l in p.stdout.splitlines() if l.startswith("BAD ")]
    last = [l[3:] for l in p.stdout.splitlines() if l.startswith("AT ")]
    if p.returncode == 3: raise ToolError("harness error: " + p.stderr[-1500:])
    if p.returncode != 0: bads.append(dict(what=f"{label}: the code under test hung or took the process down (exit {p.returncode})", case=dict(last=last, stderr=p.stderr[-1500:])))
    return outs, bads

def X01(chk):
    b = build("hzed")
    base = tempfile.mkdtemp(prefix="jarlzed-")
    fast = tempfile.mkdtemp(prefix="jarlzed-", dir="/dev/shm") if os.access("/dev/shm", os.W_OK) else base
    try:
        w = os.path.join(fast, "home"); ext = os.path.join(w, "ext"); io = os.path.join(base, "io")
        for d in (w, ext, io): os.makedirs(d); os.chown(d, NOBODY, NOBODY)
        os.chmod(base, 0o755); os.chmod(fast, 0o755)
        exe = os.path.join(base, "hzed"); shutil.copy(b, exe); os.chmod(exe, 0o755)
        for wide, steps in ([(True, 1), (False, 3)] if not chk.thorough else [(True, 1), (False, 4)]):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Steps = {steps}
  Wide = {'TRUE' if wide else 'FALSE'}
INVARIANTS Preference Remembered OnlyThen OneDownload Emit
CHECK_DEADLOCK FALSE
"""
            v = c_core.emit(chk, "ZedMC", cfg, f"launches-{steps}")
            vv = os.path.join(io, "v.nd"); shutil.copy(v, vv); os.chmod(vv, 0o644)
            outs, bads = as_nobody(chk, exe, ["replay", ext, vv], "launches")
            for x in bads: chk.violation(x["what"], x["case"])
            for o in outs: chk.validated += o["replayed"]
            if not outs and not bads: raise Misbehaved("replay produced nothing")
        rec = os.path.join(io, "rec.nd")
        outs, bads = as_nobody(chk, exe, ["record", ext, chk.seed, 1500 if not chk.thorough else 20000, rec], "histories")
        for x in bads: chk.violation(x["what"], x["case"])
        recs = read_nd(rec) if os.path.exists(rec) else []
        if recs: chk.sample(recs[0])
        validate_records(chk, "ZedTrace", c_core.TRACE % "", recs, "histories", describe=lambda r: json.dumps(r)[:500])
    finally:
        shutil.rmtree(base, ignore_errors=True); shutil.rmtree(fast, ignore_errors=True)
