"""Driver library: runs TLC on the specifications, builds the harness from /repo's
working tree, replays / records, and writes evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, random, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(VERIF, "target")
JAR = ("/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")

class ToolError(Exception):
    pass

class Misbehaved(Exception):
    """What the code under test did is nothing the check has a word for: no report, a crash, a record of the wrong shape."""

def log(*a):
    print(*a, flush=True)

def repo_hash(subdirs=("crates", "editors", "xtask/src", "docs")):
    h = hashlib.sha256()
    for sd in subdirs:
        base = os.path.join(REPO, sd)
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)

def cargo_env():
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
               RUSTFLAGS="-Awarnings", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1")
    env.pop("CARGO_BUILD_TARGET", None)
    return env

def build(pkg, profile="dev", bins=True):
    """cargo build of one harness package; returns the path of its binary."""
    write_if_changed(os.path.join(BUILD, "stamp"), repo_hash())
    t0 = time.time()
    lockdir = os.path.join(BUILD)
    os.makedirs(lockdir, exist_ok=True)
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "-p", pkg]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError(f"harness package {pkg} does not build:\n{r.stdout[-4000:]}")
    return os.path.join(TARGET, "debug", pkg)

class TlcResult:
    pass

def tlc(module, cfg, env=None, workers=8, timeout=600, extra=(), vec=None, mem="8g"):
    """Run TLC. Lines printed by PrintT(ToJson(..)) are collected into `vec` (callable or list)."""
    os.makedirs(BUILD, exist_ok=True)
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    e = dict(os.environ); e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = ""
    cfgp = cfg
    if "\n" in cfg:
        cfgp = os.path.join(meta, module + "_gen.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(meta, "m"),
           "-config", cfgp, *extra, os.path.join(SPEC, module + ".tla")]  # an absolute `module` wins
    t0 = time.time()
    res = TlcResult(); res.out = []; res.vectors = 0; res.cmd = " ".join(cmd[cmd.index("tlc2.TLC"):])
    sink = vec.append if isinstance(vec, list) else vec
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         encoding="utf-8", errors="replace")
    killed = []
    timer = threading.Timer(timeout, lambda: (killed.append(1), p.kill()))
    timer.start()
    try:
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith('"{') or line.startswith('"['):
                res.vectors += 1
                if sink:
                    sink(json.loads(json.loads(line)))
                continue
            res.out.append(line)
        p.wait()
    finally:
        timer.cancel()
        shutil.rmtree(meta, ignore_errors=True)
    res.rc = p.returncode
    res.wall = time.time() - t0
    res.timed_out = bool(killed)
    text = "\n".join(res.out)
    res.text = text
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    res.states = int(m[-1][1].replace(",", "")) if m else 0
    res.transitions = int(m[-1][0].replace(",", "")) if m else 0
    res.ok = res.rc == 0 and not killed
    res.violated = None
    mm = re.search(r"Invariant (\S+) is violated|Error: (.*)", text)
    if mm and not res.ok:
        res.violated = mm.group(1) or mm.group(2)
    return res

def tlc_must(module, cfg, **kw):
    r = tlc(module, cfg, **kw)
    if not r.ok:
        tail = "\n".join([l for l in r.out if not l.startswith(("Parsing", "Semantic", "Linting"))][-40:])
        raise ToolError(f"TLC failed on {module} ({r.cmd}) rc={r.rc} timeout={r.timed_out}\n{tail}")
    return r

def run(cmd, timeout=600, stdin=None, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, input=stdin, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd,
                           encoding="utf-8", errors="replace")
    except subprocess.TimeoutExpired as ex:
        class R: pass
        r = R(); r.returncode = -999
        r.stdout = (ex.stdout or b"").decode("utf-8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        r.stderr = "timeout"
    return r

def write_nd(path, items):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, ensure_ascii=False)); f.write("\n")

def read_nd(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.validated = 0
        self.samples = []; self.notes = {}; self.violations = []; self.known_hits = {}
        self.assumptions = []
        self.lock = threading.Lock()
        self.work = tempfile.mkdtemp(prefix=f"w-{pid}-", dir=self._mk(BUILD))
        self.findings = load_findings(pid)

    @staticmethod
    def _mk(d):
        os.makedirs(d, exist_ok=True); return d

    def path(self, name):
        return os.path.join(self.work, name)

    def add_tlc(self, r, label):
        self.states += r.states; self.transitions += r.transitions
        self.notes.setdefault("tlc_runs", []).append(
            dict(run=label, states=r.states, generated=r.transitions, vectors=r.vectors, wall_s=round(r.wall, 1)))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def note(self, k, v):
        self.notes[k] = v

    def violation(self, what, payload):
        with self.lock: return self._violation(what, payload)
    def _violation(self, what, payload):
        """A disagreement between the real code and the specification."""
        for f in self.findings:
            if f["match"](what, payload):
                self.known_hits.setdefault(f["id"], f["text"])
                return False
        d = self._mk(os.path.join(VERIF, "replays"))
        n = len(self.violations)
        p = os.path.join(d, f"{self.pid}-{n}.json")
        if n < 5:
            with open(p, "w") as fh:
                json.dump(dict(property=self.pid, what=what, case=payload), fh, indent=1, ensure_ascii=False, default=str)
            log(f"VIOLATION property={self.pid} replay={p}")
            log("  " + what[:600])
            s = json.dumps(payload, ensure_ascii=False, default=str)
            log("  case: " + s[:900])
        self.violations.append(what)
        return True

    def finish(self):
        for t in self.known_hits.values():
            log(f"KNOWN-FINDING: property={self.pid} {t}")
        wall = round(time.time() - self.t0, 2)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples or ["-"])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=wall, violations=len(self.violations), assumptions=self.assumptions)
        d = self._mk(os.path.join(VERIF, "evidence"))
        with open(os.path.join(d, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        shutil.rmtree(self.work, ignore_errors=True)
        log(f"{self.pid}: states={self.states} validated={self.validated} violations={len(self.violations)} wall={wall}s")
        sys.exit(1 if self.violations else 0)

def load_findings(pid):
    """known-findings.json: [{id, property, text, contains:[...]}]; an entry matches a
    violation whose description and case contain every listed string."""
    p = os.path.join(VERIF, "known-findings.json")
    out = []
    if os.path.exists(p):
        for f in json.load(open(p)).get("known", []):
            if f["property"] != pid:
                continue
            def match(what, payload, need=tuple(f["contains"])):
                blob = what + "\n" + json.dumps(payload, ensure_ascii=False, default=str)
                return all(n in blob for n in need)
            out.append(dict(id=f["id"], text=f["text"], match=match))
    return out

# ---------------------------------------------------------------------------
# conformance helpers
def validate_records(chk, module, cfg, records, label, env=None, timeout=600, shards=8, describe=None, max_report=3):
    """Trace validation, independent records: the specification module reads
    IOEnv.TRACE and has an invariant `Accepted` over the record index; every
    rejected record is reported."""
    if not records:
        return 0
    path = chk.path(f"{label}.ndjson")
    bad = []
    todo = records
    rounds = 0
    write_nd(path, todo)
    rej = []
    r = tlc(module, cfg, env=dict(env or {}, TRACE=path), timeout=timeout, vec=rej)
    if not r.ok and not rej:
        tail = "\n".join([l for l in r.out if not l.startswith(("Parsing", "Semantic", "Linting"))][-40:])
        if r.timed_out or "OutOfMemory" in r.text or r.rc < 0: raise ToolError(f"TLC failed on {module}: rc={r.rc} timeout={r.timed_out}\n{tail}")
        raise Misbehaved(f"the specification {module} cannot read what was recorded ({label}, {path}): {tail}")
    chk.add_tlc(r, label)
    ids = sorted({x["rejected"] for x in rej})
    chk.validated += len(records) - len(ids)
    for x in rej:
        if "missing" in x: records[x["rejected"] - 1].update(missing=x["missing"], extra=x["extra"])
        if "shape" in x: records[x["rejected"] - 1]["shape"] = x["shape"]
    # what the list of known findings covers must not hide anything else
    known = [i for i in ids if records[i - 1].get("shape", "other") != "other"]
    for i in known[:1]: chk.violation(f"{label}: the specification rejects what the code did", records[i - 1])
    ids = [i for i in ids if i not in set(known)] if chk.known_hits else ids
    for i in ids[:max_report]:
        rec = records[i - 1]
        chk.violation(f"{label}: the specification rejects what the code did" + (": " + describe(rec) if describe else ""), rec)
    if len(ids) > max_report:
        for i in ids[max_report:]:
            chk.violation(f"{label}: rejected record", records[i - 1])
    return len(ids)

def harness(chk, binpath, args, stdin_path=None, timeout=600, label=""):
    """Run a harness command. Lines: `OUT <json>` results, `BAD <json>` mismatches
    {what, case}; a hang or abnormal exit is itself a violation (the code under test
    took the process down), with the last announced case."""
    cmd = [binpath, *map(str, args)]
    r = run(cmd, timeout=timeout)
    outs, bads, last = [], [], None
    for line in r.stdout.splitlines():
        if line.startswith("OUT "):
            outs.append(json.loads(line[4:]))
        elif line.startswith("BAD "):
            bads.append(json.loads(line[4:]))
        elif line.startswith("AT "):
            last = line[3:]
    if r.returncode == 3:
        raise ToolError(f"harness error: {' '.join(cmd)}: {r.stderr[-2000:]}")
    if r.returncode != 0:
        bads.append(dict(what=f"{label}: the code under test hung or took the process down (exit {r.returncode})",
                         case=dict(last=last, stderr=r.stderr[-1500:])))
    return outs, bads
