"""L03: the message handle (LspClient)."""
from vlib import *

def mc_cfg(threads, ops):
    return f"""SPECIFICATION MSpec
CONSTANTS
  Threads = {{{', '.join('t%d' % (i + 1) for i in range(threads))}}}
  Idle = Idle
  MaxOps = {ops}
INVARIANTS UniqueIds RegisteredBeforeSent OneNotice PendingAreIssued
CHECK_DEADLOCK FALSE
"""

TRACE_CFG = """SPECIFICATION TSpec
CONSTANTS
  Threads = {"t1", "t2", "t3", "t4"}
  Idle = Idle
  MaxOps = 0
CONSTRAINT Track
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""

def L03(chk):
    b = build("hclient")
    for t, o in ([(2, 2), (3, 1)] if not chk.thorough else [(2, 3), (3, 2)]):
        chk.add_tlc(tlc_must("LspClient", mc_cfg(t, o), timeout=700), f"LspClient {t} threads x {o} operations")
    path = chk.path("runs.nd")
    outs, bads = harness(chk, b, ["run", 4000 if not chk.thorough else 60000, path, chk.seed], label="schedules", timeout=700)
    for x in bads: chk.violation(x["what"], x["case"])
    tr = read_nd(path)
    runs = []
    for e in tr:
        if e["e"] == "start": runs.append([])
        runs[-1].append(e)
    for o in outs:
        chk.note("schedules_executed", o["schedules"]); chk.note("distinct_executions", o["distinct"])
        chk.note("scenarios_enumerated_completely", o["complete"])
    if runs: chk.sample(runs[0]); chk.sample(runs[-1])
    found = 0
    while runs and found < 3:
        write_nd(path, [e for r in runs for e in r])
        rej = []
        r = tlc("LspClientTrace", TRACE_CFG, env={"TRACE": path}, vec=rej, workers=1, timeout=700)
        chk.add_tlc(r, "executions")
        if not rej:
            if not r.ok: raise ToolError("LspClientTrace: " + r.text[-1500:])
            chk.validated += len(runs); break
        i = rej[0]["rejected"] - 1
        k, at = 0, 0
        while at + len(runs[k]) <= i: at += len(runs[k]); k += 1
        chk.validated += k
        chk.violation(f"execution rejected by the specification in scenario {runs[k][0]['scenario']!r} at event {i - at}",
                      dict(event=runs[k][i - at], execution=runs[k]))
        found += 1
        runs = runs[k + 1:]
