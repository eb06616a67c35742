"""L04, L05: sessions of the language server (LspServer)."""
from vlib import *
import re, random, threading, concurrent.futures as cf

MC = """SPECIFICATION {spec}
CONSTANTS
  Docs = {{"A", "B"}}
  Alphabet <- {al}
  MaxMsgs = {n}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION {spec}
CONSTANTS
  Docs = {{"A", "B"}}
  Alphabet <- {al}
  MaxMsgs = 0
  Len0 = {n}
  Mode = "{mode}"
INVARIANT {inv}
CHECK_DEADLOCK FALSE
"""
TR = """SPECIFICATION TSpec
CONSTANTS
  Docs = {"A", "B"}
INVARIANT Accepted
CHECK_DEADLOCK FALSE
"""
M0 = dict(doc="A", id=0, ver=0, n=0)
def m(k, **kw): return dict(M0, k=k, **kw)
REQ = {"init", "init-bad", "unknown", "action", "action-bad", "shutdown"}

def gen(chk, spec, al, n, mode, inv, label):
    seen = {}
    r = tlc_must("LspServerGen", GEN.format(spec=spec, al=al, n=n, mode=mode, inv=inv), vec=lambda v: seen.setdefault(json.dumps(v["msgs"]), 1), timeout=700)
    chk.add_tlc(r, label)
    return [json.loads(x) for x in seen]

def dress(seq, i, start=None):
    """A generated sequence as a whole session: handshake before, a probe after."""
    seq = [dict(x) for x in seq]
    for x in seq:
        x["text"] = ("bad", "boom")[i % 2] if x["n"] < 0 else str(x["n"])
    pre = [m("init", id=1), m("initialized")]
    if start is not None:
        k = [x["k"] for x in seq]
        pre, seq = [], seq + ([m("initialized")] if "init" in k else [m("init", id=1), m("initialized")])
    return pre + seq + [m("unknown", id=990), m("unknown", id=991)]

def norm(rec):
    for o in rec["out"]:
        if o["k"] == "ans": o["code"] = "none" if o["ok"] else "nomethod" if o["code"] == -32601 else "error"
    rec["msgs"] = [{k: x[k] for k in ("k", "doc", "id", "ver", "n")} for x in rec["msgs"]]
    return rec

def explain(rec):
    """What about the session no behaviour of the specification explains, for the reader."""
    ids = [x["id"] for x in rec["msgs"][:rec["used"]] if x["k"] in REQ]
    ans = [o["id"] for o in rec["out"] if o["k"] == "ans"]
    ks = [x["k"] for x in rec["msgs"]]
    if rec["end"] == "crash": return "L04", "the server crashed"
    ex = next((i for i, k in enumerate(ks) if k == "exit"), None)
    if rec["used"] < len(ks) and (ex is None or rec["used"] <= ex):
        return "L04", f"the session ended after message {rec['used']} ({ks[rec['used'] - 1]}) without being told to"
    if ex is not None and rec["used"] > ex + 1: return "L04", "the session went on after exit"
    if ex is not None and rec["end"] != ("ok" if "shutdown" in ks[:ex] else "err"):
        return "L04", f"the session ended with {'success' if rec['end'] == 'ok' else 'failure'} {'after' if 'shutdown' in ks[:ex] else 'without'} a shutdown request"
    for i in ids:
        k = [x["k"] for x in rec["msgs"] if x["id"] == i and x["k"] in REQ][0]
        if ans.count(i) != 1: return "L04", f"request {k} answered {ans.count(i)} times"
    if set(ans) - set(ids): return "L04", "an answer to no request"
    if any(o["k"] not in ("ans", "pub") for o in rec["out"]): return "L04", "an unexpected message"
    pubs = [o for o in rec["out"] if o["k"] == "pub"]
    other = [o for o in rec["out"] if o["k"] == "ans"]
    for d in ("A", "B"):
        vs = [p["ver"] for p in pubs if p["doc"] == d]
        last = -1
        for v in vs:
            if 0 <= v < last: return "L05", f"diagnostics of version {v} published after those of version {last}"
            last = max(last, v)
    for p in pubs:
        src = [x for x in rec["msgs"] if x["k"] in ("open", "change") and x["doc"] == p["doc"] and x["ver"] == p["ver"]]
        if p["ver"] >= 0 and (not src or max(src[0]["n"], 0) != p["n"]): return "L05", f"{p['n']} diagnostics published for version {p['ver']}, which are not those of its text"
    return "both", "the session as a whole"

def judge(chk, recs, label):
    """Validates the records; returns the rejected ones as (property, what, record)."""
    if not recs: return []
    path = chk.path(f"{label}.nd"); write_nd(path, recs)
    acc = set()
    r = tlc("LspServerTrace", TR, env={"TRACE": path}, vec=lambda v: acc.add(v["accepted"]), timeout=800)
    if not r.ok: raise ToolError("LspServerTrace: " + "\n".join(l for l in r.out if not l.startswith(("Parsing", "Semantic")))[-2000:])
    chk.add_tlc(r, label)
    rej = [recs[i - 1] for i in range(1, len(recs) + 1) if i not in acc]
    chk.validated += len(recs) - len(rej)
    return [(*explain(x), x) for x in rej]

def controlled(chk, b, sessions, runs, workers, label):
    path, outp = chk.path(f"{label}.in"), chk.path(f"{label}.out")
    write_nd(path, [dict(msgs=s, runs=runs, workers=workers) for s in sessions])
    outs, bads = harness(chk, b, [path, outp, chk.seed, 8], label="sessions", timeout=800)
    for x in bads: chk.violation(x["what"], x["case"])
    for o in outs:
        chk.note("controlled_sessions", o["sessions"]); chk.note("controlled_executions", o["executions"])
    return [norm(x) for x in read_nd(outp)] if os.path.exists(outp) else []

# -- the real program over its real transport
def wire(x):
    b = json.dumps(x).encode()
    return b"Content-Length: %d\r\n\r\n" % len(b) + b
def lsp(x, i, root):
    """The JSON-RPC message of an abstract one."""
    doc = dict(uri=f"file://{root}/{x['doc']}.R")
    text = "f(\n" if x["n"] < 0 else f"# text {x['n']}\n" + "any(is.na(x))\n" * x["n"]
    req = lambda method, params: dict(jsonrpc="2.0", id=x["id"], method=method, params=params)
    note = lambda method, params: dict(jsonrpc="2.0", method=method, params=params)
    bad = [dict(bogus=1), None, [1, 2], "x"][i % 4]
    k = x["k"]
    return {"init": lambda: req("initialize", dict(capabilities={})), "init-bad": lambda: req("initialize", dict(capabilities=5)),
            "initialized": lambda: note("initialized", {}), "unknown": lambda: req(["textDocument/hover", "foo/bar"][i % 2], {}),
            "action": lambda: req("textDocument/codeAction", dict(textDocument=doc, range=dict(start=dict(line=0, character=0), end=dict(line=10**6, character=0)), context=dict(diagnostics=[]))),
            "action-bad": lambda: req("textDocument/codeAction", bad), "shutdown": lambda: req("shutdown", None), "exit": lambda: note("exit", None),
            "open": lambda: note("textDocument/didOpen", dict(textDocument=dict(doc, languageId="r", version=x["ver"], text=text))),
            "change": lambda: note("textDocument/didChange", dict(textDocument=dict(doc, version=x["ver"]), contentChanges=[dict(text=text)])),
            "save": lambda: note("textDocument/didSave", dict(textDocument=doc)), "close": lambda: note("textDocument/didClose", dict(textDocument=doc)),
            "open-bad": lambda: note("textDocument/didOpen", bad), "change-bad": lambda: note("textDocument/didChange", bad),
            "save-bad": lambda: note("textDocument/didSave", bad), "close-bad": lambda: note("textDocument/didClose", bad),
            "note": lambda: note(["foo/bar", "$/cancelRequest"][i % 2], dict(id=1)), "resp": lambda: dict(jsonrpc="2.0", id=x["id"], result=None)}[k]()

def parse_stream(data):
    out, at = [], 0
    while True:
        h = data.find(b"\r\n\r\n", at)
        if h < 0: return out
        n = int(re.search(rb"Content-Length: (\d+)", data[at:h]).group(1))
        out.append(json.loads(data[h + 4:h + 4 + n])); at = h + 4 + n

def describe(x, kinds):
    if x.get("method") == "textDocument/publishDiagnostics":
        p = x["params"]
        return dict(k="pub", doc=p["uri"].rsplit("/", 1)[1][:-2], ver=p.get("version", -1) if p.get("version") is not None else -1, n=len(p["diagnostics"]))
    if "method" in x: return None if x["method"].startswith("window/") else dict(k="other", method=x["method"])
    if "error" in x: return dict(k="ans", id=x["id"], ok=False, code=x["error"]["code"], n=0)
    r, k = x.get("result"), kinds.get(x["id"])
    n = (sum(a["title"].startswith("Fix") for a in r) if isinstance(r, list) else -1) if k == "action" else \
        (0 if isinstance(r, dict) and "capabilities" in r else -1) if k == "init" else (0 if r is None else -1)
    return dict(k="ans", id=x["id"], ok=True, code=0, n=n)

def real_session(cli, msgs, root, seed):
    rng = random.Random(seed)
    p = subprocess.Popen([cli, "server"], cwd=root, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = []
    t = threading.Thread(target=lambda: out.append(p.stdout.read())); t.start()
    try:
        pace = rng.random() < 0.5
        for i, x in enumerate(msgs):
            p.stdin.write(wire(lsp(x, i + seed, root))); p.stdin.flush()
            if pace and rng.random() < 0.4: time.sleep(rng.choice([0.001, 0.004, 0.015]))
    except (BrokenPipeError, OSError): pass
    ks = [x["k"] for x in msgs]
    ex = ks.index("exit") if "exit" in ks else None
    try:
        if ex is None: p.stdin.close()        # the editor goes away
        rc = p.wait(20)                        # after exit the process ends by itself
        hung = False
    except subprocess.TimeoutExpired: hung, rc = True, None
    except OSError: rc = p.wait(20); hung = False
    if hung: p.kill(); p.wait()
    try: p.stdin.close()
    except OSError: pass
    t.join(); p.stdout.close()
    kinds = {x["id"]: x["k"] for x in msgs if x["k"] in REQ}
    got = [d for d in (describe(x, kinds) for x in parse_stream(out[0])) if d]
    if ex is not None: used = ex + 1
    else: used = len(msgs)
    return norm(dict(msgs=[dict(x) for x in msgs], out=got, used=used, end="hung" if hung else "crash" if rc < 0 or rc == 101 else "ok" if rc == 0 else "err"))

def real(chk, sessions, label):
    cli = build("jarl")
    root = chk.path(label); os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, "jarl.toml"), "w") as f: f.write('[lint]\nselect = ["any_is_na"]\n')
    with cf.ThreadPoolExecutor(12) as ex:
        recs = list(ex.map(lambda a: real_session(cli, a[1], root, chk.seed * 100000 + a[0]), enumerate(sessions)))
    for x in recs:
        # a process that ends without being told drops what follows: as if it had ended after the last message it answered
        if x["end"] == "hung": x["end"] = "crash"
    chk.note("real_sessions", len(recs))
    return recs

def longer(rng, alphabet, n, long):
    out = []
    for _ in range(n):
        k = rng.randint(*long)
        seq = [dict(rng.choice(alphabet)) for _ in range(k)]
        if rng.random() < 0.7: seq = [x for x in seq if x["k"] != "exit"]
        if rng.random() < 0.6: seq = [x for x in seq if x["k"] != "shutdown"]
        for i, x in enumerate(seq): x["id"], x["ver"] = i + 10, i + 1
        out.append(seq)
    return out

def report(chk, pid, rej):
    mine = [x for x in rej if x[0] in (pid, "both")]
    seen = set()
    for _, what, rec in sorted(mine, key=lambda x: len(x[2]["msgs"])):
        kind = re.sub(r"\d+", "#", what)
        if kind in seen or len(seen) >= 3: continue
        seen.add(kind)
        chk.violation(f"no behaviour of the specification explains a session: {what}", rec)
    chk.note("sessions_of_the_other_property_rejected", len(rej) - len(mine))

INV4 = "AtMostOneAnswer OnlyRequestsAnswered AllAnswered UnknownRefused EndsWhenTold"
INV5 = "TrueVersions FinalText ClosedIsEmpty NothingOlder"

def L04(chk):
    b = build("hserver"); build("jarl")
    deep = chk.thorough
    chk.add_tlc(tlc_must("LspServerMC", MC.format(spec="MSpec", al="Protocol", n=4, inv=INV4), timeout=800), "all sessions, from the start")
    if deep: chk.add_tlc(tlc_must("LspServerMC", MC.format(spec="RSpec", al="ProtocolRun", n=5, inv=INV4), timeout=1500), "all sessions, after the handshake")
    starts = gen(chk, "HSpec", "Starts", 3, "", "HPrint", "openings")
    runs = gen(chk, "GSpec", "ProtocolRun", 3 if not deep else 4, "", "GPrint", "sessions")
    rng = random.Random(chk.seed)
    alpha = list({json.dumps(x, sort_keys=True): dict(x) for s in runs for x in ({k: v for k, v in y.items() if k not in ("id", "ver")} for y in s)}.values())
    long = longer(rng, alpha, 1500 if not deep else 20000, (5, 14))
    sessions = [dress(s, i, 1) for i, s in enumerate(starts)] + [dress(s, i) for i, s in enumerate(runs)] + [dress(s, i) for i, s in enumerate(long)]
    recs = []
    for w in (1, 2):
        recs += controlled(chk, b, sessions, 2, w, f"controlled{w}")
    pick = [dress(s, 0, 1) for s in starts] + [dress(s, 0) for s in rng.sample(runs, min(len(runs), 400 if not deep else 4000))] + [dress(s, 0) for s in long[:150 if not deep else 2000]]
    recs += real(chk, pick, "real")
    if recs: chk.sample(recs[0]); chk.sample(recs[-1])
    report(chk, "L04", judge(chk, recs, "sessions"))

def slow_sessions(rng, n):
    """Texts that take very different times to lint, so that jobs finish out of order."""
    out = []
    for _ in range(n):
        docs = ["A", "B"] if rng.random() < 0.5 else ["A"]
        seq, ver = [], 0
        state = {d: False for d in docs}
        for _ in range(rng.randint(4, 10)):
            d = rng.choice(docs); ver += 1
            size = rng.choice([0, 1, 3, 300, 900, -1])
            if not state[d]: seq.append(m("open", doc=d, ver=ver, n=size)); seq.append(m("save", doc=d)); state[d] = True
            else:
                r = rng.random()
                if r < 0.6: seq += [m("change", doc=d, ver=ver, n=size), m("save", doc=d)]
                elif r < 0.8: seq.append(m("close", doc=d)); state[d] = False
                else: seq.append(m("save", doc=d))
        for i, x in enumerate(seq): x["id"] = i + 10
        out.append(seq)
    return out

def L05(chk):
    b = build("hserver"); build("jarl")
    deep = chk.thorough
    chk.add_tlc(tlc_must("LspServerMC", MC.format(spec="RSpec", al="Publishing", n=5 if not deep else 6, inv=INV5), timeout=1700), "all edits, saves and closes")
    runs = gen(chk, "GSpec", "Publishing", 6 if not deep else 7, "pub", "GPrint", "sessions")
    rng = random.Random(chk.seed)
    keep = [s for s in runs if sum(x["k"] == "save" for x in s) >= 1]
    many = [s for s in keep if sum(x["k"] in ("save", "close") for x in s) >= 2]
    chk.note("sequences_generated", len(runs))
    if len(many) > 6000 and not deep: many = rng.sample(many, 6000)
    if len(many) > 40000: many = rng.sample(many, 40000)
    alpha = list({json.dumps(x, sort_keys=True): dict(x) for s in runs for x in ({k: v for k, v in y.items() if k not in ("id", "ver")} for y in s)}.values())
    long = longer(rng, [x for x in alpha if x["k"] in ("change", "save", "close", "open")], 150 if not deep else 2500, (8, 16))
    recs = controlled(chk, b, [dress(s, i) for i, s in enumerate(many)], 12 if not deep else 30, 2, "two workers")
    recs += controlled(chk, b, [dress(s, i) for i, s in enumerate(rng.sample(many, min(len(many), 1500)))], 12, 4, "four workers")
    recs += controlled(chk, b, [dress(s, i) for i, s in enumerate(long)], 30, 3, "longer")
    recs += real(chk, [[m("init", id=1), m("initialized")] + s + [m("unknown", id=990)] for s in slow_sessions(rng, 250 if not deep else 3000)], "real")
    if recs: chk.sample(recs[0]); chk.sample(recs[-1])
    report(chk, "L05", judge(chk, recs, "sessions"))
