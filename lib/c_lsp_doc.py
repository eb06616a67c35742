"""L01, L02: document synchronisation and position conversion (DocSync)."""
from vlib import *

def sync_cfg(thorough):
    return f"""SPECIFICATION Spec
CONSTANTS
  Uris = {{{'u1, u2' if thorough else 'u1'}}}
  Chars = {{"a", "e4", "nl"}}
  NewTexts <- McNewTexts
  Encs = {{"utf8", "utf16", "utf32"}}
  MaxInit = {1 if thorough else 2}
  MaxLen = {3 if thorough else 4}
  MaxBatch = {2 if thorough else 2}
  MaxSteps = {3 if thorough else 2}
  Closed = Closed
  BadLines = {{0, 3}}
INVARIANTS Synced RoundTrip
CHECK_DEADLOCK FALSE
"""

def vec_cfg(emit, chars, init, batch):
    return f"""SPECIFICATION VSpec
CONSTANTS
  Uris = {{u1}}
  Chars = {{{', '.join('"%s"' % c for c in chars)}}}
  NewTexts <- VecNewTexts
  Encs = {{"utf8", "utf16", "utf32"}}
  MaxInit = {init}
  MaxLen = 9
  MaxBatch = {batch}
  MaxSteps = 0
  Closed = Closed
  BadLines = {{0, 3}}
INVARIANT {emit}
CHECK_DEADLOCK FALSE
"""

TRACE_CFG = """SPECIFICATION TSpec
CONSTANTS
  Uris = {u1}
  Chars = {"a"}
  NewTexts = {}
  Encs = {"utf8"}
  MaxInit = 0
  MaxLen = 0
  MaxBatch = 0
  MaxSteps = 0
  Closed = Closed
  BadLines = {}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""

def vectors(chk, emit, chars, init, batch, label):
    path = chk.path(label + ".nd")
    n = 0; smp = []
    with open(path, "w") as f:
        def sink(x):
            if len(smp) < 2 and x.get("cs"): smp.append(x)
            f.write(json.dumps(x) + "\n")
        r = tlc_must("DocVecMC", vec_cfg(emit, chars, init, batch), vec=sink, timeout=600)
    chk.add_tlc(r, label)
    for s in smp: chk.sample(s)
    return path, r.vectors

def replay(chk, binp, path, label):
    outs, bads = harness(chk, binp, ["replay-doc", path], label=label, timeout=600)
    for b in bads: chk.violation(b["what"], b["case"])
    for o in outs: chk.validated += o["replayed"]
    if not outs and not bads: raise Misbehaved("replay produced nothing")

def record(chk, binp, sessions, ops, label="sessions", only=None):
    path = chk.path(label + ".trace")
    outs, bads = harness(chk, binp, ["record-doc", chk.seed, sessions, ops, path], label=label)
    for b in bads: chk.violation(b["what"], b["case"])
    rej = []
    r = tlc("DocTrace", TRACE_CFG, env={"TRACE": path}, vec=rej, workers=1)
    chk.add_tlc(r, label)
    if rej:
        tr = read_nd(path); i = rej[0]["rejected"] - 1
        st = max(k for k in range(i + 1) if tr[k]["event"] == "start") if i < len(tr) else 0
        same = [e for e in tr[st:i] if e.get("u") == tr[i].get("u")] if i < len(tr) else []
        chk.violation("session trace rejected by the specification at event %d" % i,
                      dict(event=tr[i] if i < len(tr) else None, encoding=tr[st].get("enc"), before=same[-3:]))
    elif not r.ok:
        raise ToolError("DocTrace: " + r.text[-1500:])
    else:
        n = sum(o["events"] for o in outs)
        chk.validated += n
        chk.note("recorded_events", n)
        chk.note("refused_notifications_recorded", sum(o["refused"] for o in outs))

def L01(chk):
    b = build("hlsp")
    r = tlc_must("DocSyncMC", sync_cfg(chk.thorough), timeout=1500)
    chk.add_tlc(r, "DocSync exhaustive")
    p, n = vectors(chk, "EmitApply", ["a", "e4", "nl"] if not chk.thorough else ["a", "e2", "e4", "nl"], 2, 2, "batches")
    replay(chk, b, p, "batches")
    record(chk, b, 60 if not chk.thorough else 600, 60)

def L02(chk):
    b = build("hlsp")
    p, n = vectors(chk, "EmitLook", ["a", "e2", "e3", "e4", "nl", "cr"], 4 if not chk.thorough else 5, 0, "lookups")
    replay(chk, b, p, "lookups")
    record(chk, b, 40 if not chk.thorough else 400, 80)
