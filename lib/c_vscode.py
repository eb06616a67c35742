"""X02: the VS Code extension. Its sources are bundled with stand-ins for the editor, the language client and
the packages that cannot be fetched here; it only looks at files of a scratch directory."""
from vlib import *
import c_core

NODE = "/opt/veriftools/node/node_modules"
def bundle(d):
    src = "/repo/editors/code/src"; h = os.path.join(VERIF, "harness/vscode"); out = os.path.join(d, "dist", "run.js")
    alias = {"vscode": "vscode.js", "which": "which.js", "fs-extra": "fs-extra.js", "p-queue": "p-queue.js", "vscode-languageclient/node": "client.js", "vscode-languageclient": "client.js"}
    cmd = [NODE + "/.bin/esbuild", h + "/main.js", "--bundle", "--platform=node", "--format=cjs", "--log-level=error", "--outfile=" + out, "--alias:JARL=" + src]
    cmd += [f"--alias:{k}={h}/{v}" for k, v in alias.items()]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
    if p.returncode: raise ToolError("the extension cannot be bundled: " + p.stderr[-1500:])
    return out

def run_node(chk, cmd, label):
    p = subprocess.run(["node", *map(str, cmd)], capture_output=True, text=True, timeout=600, env={"PATH": os.environ["PATH"], "HOME": "/nonexistent"})
    outs = [json.loads(l[4:]) for l in p.stdout.splitlines() if l.startswith("OUT ")]
    bads = [json.loads(l[4:]) for l in p.stdout.splitlines() if l.startswith("BAD ")]
    if p.returncode or not outs: bads.append(dict(what=f"{label}: the code under test took the process down or hung (exit {p.returncode})", case=dict(stderr=p.stderr[-1500:])))
    for x in bads: chk.violation(x["what"], x["case"])
    return outs

def X02(chk):
    d = tempfile.mkdtemp(prefix="jarlcode-")
    try:
        js = bundle(d)
        for part, most in (("worlds", 1), ("histories", 5 if chk.thorough else 4)):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Part = "{part}"
  Most = {most}
INVARIANTS AtMostOne Known Alternates Trust Prefers Emit
PROPERTY Answered
CHECK_DEADLOCK FALSE
"""
            p = c_core.emit(chk, "SessionMC", cfg, part)
            vs = list({json.dumps(r): r for r in read_nd(p)}.values()); write_nd(p, vs)
            for o in run_node(chk, [js, "replay", p, chk.seed], part): chk.validated += o["replayed"]
        rec = os.path.join(d, "rec.nd")
        run_node(chk, [js, "record", 1000 if not chk.thorough else 20000, chk.seed, rec], "histories")
        recs = read_nd(rec) if os.path.exists(rec) else []
        if recs: chk.sample(recs[0])
        validate_records(chk, "SessionTrace", c_core.TRACE % "", recs, "recorded histories", describe=lambda r: json.dumps(r)[:600])
    finally:
        shutil.rmtree(d, ignore_errors=True)
