"""S01, M01, R01, R04, C04, O03: the stand-alone parts."""
from vlib import *

TRACE = """SPECIFICATION TSpec
%sINVARIANT Accepted
CHECK_DEADLOCK FALSE
"""

def emit(chk, module, cfg, label, timeout=700, env=None):
    path = chk.path(label + ".nd"); smp = []; n = [0]
    with open(path, "w") as f:
        def sink(x):
            n[0] += 1
            if n[0] in (50, 5000): smp.append(x)
            f.write(json.dumps(x) + "\n")
        r = tlc_must(module, cfg, vec=sink, timeout=timeout, env=env)
    chk.add_tlc(r, label)
    for s in smp: chk.sample(s)
    return path

def replay(chk, b, cmd, label):
    outs, bads = harness(chk, b, cmd, label=label, timeout=700)
    for x in bads: chk.violation(x["what"], x["case"])
    for o in outs: chk.validated += o["replayed"]
    if not outs and not bads: raise Misbehaved("replay produced nothing")

def record(chk, b, cmd, path, module, label, consts="", describe=None, env=None):
    outs, bads = harness(chk, b, cmd, label=label, timeout=700)
    for x in bads: chk.violation(x["what"], x["case"])
    recs = read_nd(path) if os.path.exists(path) else []
    if recs: chk.sample(recs[len(recs) // 2])
    validate_records(chk, module, TRACE % consts, recs, label, describe=describe, env=env)
    return outs

def S01(chk):
    b = build("hcore")
    cfg = f"""SPECIFICATION MSpec
CONSTANTS
  Free = {{"hash", "pipe", "sp", "kw", "file", "chunk", "end", "r1", "colon", "dash", "word"}}
  MaxFree = {4 if not chk.thorough else 5}
  Tail0 = {{"sp", "r1", "bad", "colon", "word", "r2"}}
  MaxTail = {4 if not chk.thorough else 6}
INVARIANTS ValidIffDocumented PipeOnlyForChunks OneClass HeaderIsNoItem ItemsAreNoDirectives Emit
CHECK_DEADLOCK FALSE
"""
    p = emit(chk, "DirectiveMC", cfg, "comments")
    replay(chk, b, ["replay-directives", p], "comments")
    rec = chk.path("rec.nd")
    record(chk, b, ["record-directives", chk.seed, 20000 if not chk.thorough else 300000, rec], rec, "DirectiveTrace", "recorded comments",
           describe=lambda r: f"{r['text']!r}: comment={r['comment']} item={r['item']} header={r['header']}")

def M01(chk):
    b = build("hcore")
    for wide, n in ([(False, 5), (True, 3)] if not chk.thorough else [(False, 6), (True, 4)]):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Outside = Outside
  MaxLines = {n}
  Wide = {'TRUE' if wide else 'FALSE'}
INVARIANTS ChunksAreBlocks Ordered NoneMissed Emit
CHECK_DEADLOCK FALSE
"""
        p = emit(chk, "NotebookMC", cfg, f"documents{'-wide' if wide else ''}")
        replay(chk, b, ["replay-notebooks", p], "documents")
    rec = chk.path("rec.nd")
    record(chk, b, ["record-notebooks", chk.seed, 3000 if not chk.thorough else 40000, rec], rec, "NotebookTrace", "recorded documents",
           consts="CONSTANTS\n  Outside = Outside\n", describe=lambda r: f"chunks {r['r']} in {r['text']!r}")

def R04(chk):
    b = build("hcore")
    cfg = f"""SPECIFICATION Spec
CONSTANTS
  MaxTokens = {5 if not chk.thorough else 6}
  MaxLines = {4 if not chk.thorough else 5}
INVARIANTS OnlyR OthersIgnored Emit
CHECK_DEADLOCK FALSE
"""
    p = emit(chk, "DescriptionMC", cfg, "descriptions")
    replay(chk, b, ["replay-description", p], "descriptions")
    rec = chk.path("rec.nd")
    record(chk, b, ["record-description", chk.seed, 6000 if not chk.thorough else 80000, rec], rec, "DescriptionTrace", "recorded descriptions",
           describe=lambda r: f"versions {r['r']} from {r['text']!r}")

def R01(chk):
    b = build("hcore")
    rec = chk.path("rec.nd")
    outs, bads = harness(chk, b, ["rules", chk.seed, 3000 if not chk.thorough else 40000, rec], label="registry")
    for x in bads: chk.violation(x["what"], x["case"])
    recs = read_nd(rec)
    chk.sample(recs[0]); chk.sample(recs[-1])
    cfg = TRACE % "" + "INVARIANT Table1\n"
    validate_records(chk, "RulesTrace", cfg, recs, "registry", describe=lambda r: json.dumps(r)[:300])
    # the published table is the one specified
    doc = doc_table()
    path = chk.path("doc.nd"); write_nd(path, doc)
    validate_records(chk, "RulesDoc", TRACE % "", doc, "published table", describe=lambda r: json.dumps(r)[:300])

def doc_table():
    cm = {'comments': 'COMM', 'correctness': 'CORR', 'suspicious': 'SUSP', 'performance': 'PERF', 'readability': 'READ', 'testthat': 'TESTTHAT'}
    fm = {'✅': 'safe', '❗': 'unsafe', '❌': 'none'}
    rows = []
    for l in open(os.path.join(REPO, "docs/rules.qmd")):
        m = re.match(r'\s*c\("([a-z0-9_]+)", "([^"]*)", "([^"]*)", "([^"]*)"\)', l)
        if m:
            mi = re.search(r'R >= (\d+)\.(\d+)', m[4])
            rows.append(dict(name=m[1], cats=[cm.get(x.strip(), x) for x in m[2].split(',')], fix=fm.get(m[3], m[3]),
                             enabled='isabled' not in m[4], min=[int(mi[1]), int(mi[2]), 0] if mi else []))
    return rows

def C04(chk):
    b = build("hcore")
    base = tempfile.mkdtemp(prefix="jarlpaths-")
    try:
        scratch = os.path.join(base, "w", "x"); os.makedirs(scratch)
        depth = len(scratch.strip("/").split("/"))
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Depth = {depth}
  Comps = {{"a", "b.R", "dot", "up", "empty", "c0"}}
  MaxComps = {4 if not chk.thorough else 6}
  Pieces = {{"a", "dot", "R", "r", "Rmd", "rmd", "qmd", "Qmd", "RMD", "e2"}}
  MaxPieces = {4 if not chk.thorough else 5}
INVARIANTS Clean Idempotent SameFile Apart Emit
CHECK_DEADLOCK FALSE
"""
        p = emit(chk, "PathsMC", cfg, "paths")
        replay(chk, b, ["replay-paths", p, scratch], "paths")
        rec = chk.path("rec.nd")
        record(chk, b, ["record-paths", chk.seed, 6000 if not chk.thorough else 80000, rec, scratch], rec, "PathsTrace", "recorded paths",
               describe=lambda r: json.dumps(r, ensure_ascii=False)[:300])
    finally:
        shutil.rmtree(base, ignore_errors=True)

def O03(chk):
    b = build("hcore")
    recs = []
    for s in ("Success", "Failure", "Error"):
        recs.append(dict(k="exit", s=s, code=run([b, "exit", s]).returncode))
    path = chk.path("lv.nd")
    outs, bads = harness(chk, b, ["levels", chk.seed, 500 if not chk.thorough else 20000, path], label="levels")
    for x in bads: chk.violation(x["what"], x["case"])
    recs += [dict(r, k="level") for r in read_nd(path)]
    for o in outs: recs.append(dict(k="default", s=o["default"], ordered=o["ordered"]))
    for s in ("error", "warn", "info", "debug", "trace"):
        r = run([b, "log", s])
        recs.append(dict(k="shown", s=s, ev=re.findall(r"EV jarl (\w+)", r.stderr)))
        if re.search("EV other", r.stderr) or r.stdout.strip():
            chk.violation("log output of other crates or on standard output", dict(level=s, out=r.stderr + r.stdout))
    chk.sample(recs[0]); chk.sample(recs[-1])
    validate_records(chk, "Status", TRACE % "", recs, "statuses and levels", describe=lambda r: json.dumps(r))
