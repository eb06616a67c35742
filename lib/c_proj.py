"""Checks on whole projects: directories, repositories, configuration files, packages."""
from vlib import *
from c_core import TRACE, emit, replay, record
from c_full import jarl, emit_with, write_files, setof, q
from concurrent.futures import ThreadPoolExecutor

# ---------------------------------------------------------------- version control
VIOL, FIXED, CLEAN = "any(is.na(x))\n", "anyNA(x)\n", "x + 1\n"
GIT_ENV = dict(GIT_CONFIG_NOSYSTEM="1", GIT_CONFIG_GLOBAL="/dev/null", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@a", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@a")
def git(d, *a):
    r = run(["git", "-C", d, *a], env=GIT_ENV, timeout=60)
    if r.returncode: raise ToolError(f"git {a} failed: {r.stderr}")

def make_world(base, w):
    """the tree of directories with its repositories; returns the names of the directories and the texts of the R files"""
    n = len(w["tree"]); names = [None]
    for d in range(1, n + 1):
        p = w["tree"][d - 1]
        names.append(os.path.join(names[p] if p else base, f"d{d}") if d > 1 or p else base)
        os.makedirs(names[d], exist_ok=True)
    def owner(d): return 0 if d == 0 else d if d in w["repos"] else owner(w["tree"][d - 1])
    text = {}
    for d in range(1, n + 1): text[d] = VIOL if d in w["viol"] else CLEAN
    fn = lambda d, k: os.path.join(names[d], ("f.R", "notes.txt")[k])
    def put(p, t):
        with open(p, "w") as f: f.write(t)
    for r in sorted(w["repos"]):
        git(names[r], "init", "-q", "--template=")
        mine = [d for d in range(1, n + 1) if owner(d) == r]
        os.makedirs(os.path.join(names[r], ".git", "info"), exist_ok=True)
        ex = [f"/{os.path.relpath(names[x], names[r])}/" for x in w["repos"] if x != r and names[x].startswith(names[r] + "/")] + ["/" + os.path.join("" if d == r else os.path.relpath(names[d], names[r]), "jarl.toml") for d in mine]
        ex += ["/" + os.path.relpath(fn(d, k), names[r]) for d in mine for k, st in ((0, w["file"]), (1, w["other"])) if st[d - 1] == "ignored"]
        put(os.path.join(names[r], ".git", "info", "exclude"), "\n".join(ex) + "\n")
        add = []
        for d in mine:
            for k, st in ((0, w["file"]), (1, w["other"])):
                if st[d - 1] in ("clean", "modified", "removed"):
                    put(fn(d, k), "# before\n" if st[d - 1] != "clean" else text[d] if k == 0 else "text\n"); add.append(fn(d, k))
        if add: git(names[r], "add", "-f", "--", *add)
        git(names[r], "commit", "-q", "--allow-empty", "-m", "m")
        for d in mine:
            for k, st in ((0, w["file"]), (1, w["other"])):
                s = st[d - 1]
                if s == "removed": os.remove(fn(d, k))
                elif s in ("modified", "staged", "untracked", "ignored"): put(fn(d, k), text[d] if k == 0 else "text\n")
                if s == "staged": git(names[r], "add", "--", fn(d, k))
    for d in range(1, n + 1):
        if owner(d) == 0:
            if w["file"][d - 1] == "clean": put(fn(d, 0), text[d])
    return names, text

def vcs_run(cli, names, text, w, rng):
    """one run; puts the files back as they were. What was written, how it ended, what is wrong with it"""
    base = names[1]
    cwd = rng.choice([base] + ([names[d] for d in range(2, len(names)) if os.path.isdir(names[d])]))
    paths = [os.path.join(names[d], "f.R") for d in w["req"]]
    args = [p if rng.random() < .4 else os.path.relpath(p, cwd) for p in paths]
    rng.shuffle(args)
    fx = rng.choice([["--fix"], ["--unsafe-fixes"], ["--fix", "--fix-only"], ["--fix", "--unsafe-fixes"]]) if w["fix"] else []
    a = ["check", *args, *fx, *(["--allow-dirty"] if w["dirty"] else []), *(["--allow-no-vcs"] if w["novcs"] else [])]
    fmt = rng.choice(["json", "concise", "full"]); a += ["--output-format", fmt]
    cfgs = [d for d in range(1, len(names)) if os.path.isdir(names[d]) and rng.random() < .3]
    for d in cfgs:
        with open(os.path.join(names[d], "jarl.toml"), "w") as f: f.write("[lint]\nselect = [\"any_is_na\"]\n")
    ns = {}
    for d in range(1, len(names)):
        for k in ("f.R", "notes.txt"):
            p = os.path.join(names[d], k)
            if os.path.exists(p): os.utime(p, (1, 1)); ns[p] = (d, k)
    r = jarl(cli, a, cwd, env=dict(GIT_ENV, RAYON_NUM_THREADS=str(rng.choice([1, 4]))))
    written = []; bad = []
    for p, (d, k) in ns.items():
        with open(p) as f: now = f.read()
        was = text[d] if k == "f.R" else "text\n"
        if now == was and os.stat(p).st_mtime_ns == 10**9: continue
        if k == "f.R" and now == FIXED and was == VIOL: written.append(d)
        else: bad.append(f"{os.path.relpath(p, base)} was written and is now {now!r}")
        with open(p, "w") as f: f.write(was)
    for d in cfgs: os.remove(os.path.join(names[d], "jarl.toml"))
    said = (r.stderr if fmt != "json" else r.stdout + r.stderr)
    out = "reported" if not w["fix"] else "fixed"
    if r.returncode not in (0, 1):
        out = "failed" if "no fixes were applied" not in re.sub(r"\\?\s+|\\n", " ", said) else "novcs" if "--allow-no-vcs" in said else "dirty" if "--allow-dirty" in said else "failed without a reason"
    return written, out, bad, dict(args=a, cwd=cwd, stdout=r.stdout[:1500], stderr=r.stderr[:1500], code=r.returncode)

def F03(chk):
    cli = build("jarl"); t = chk.thorough
    trees = [("<<0, 1, 1>>", '{"modified", "untracked", "ignored"}', '{"removed"}', 1, "{1, 3}"),
             ("<<0, 1, 2>>", '{"staged", "ignored"}', '{"modified", "untracked", "staged"}', 1, "{2, 3}")]
    if t: trees = [("<<0, 1, 1>>", '{"modified", "staged", "untracked", "ignored", "removed"}', '{"removed", "modified", "untracked", "ignored"}', 2, "{1, 3}"),
                   ("<<0, 1, 2>>", '{"modified", "staged", "untracked", "ignored", "removed"}', '{"modified", "untracked", "staged"}', 2, "{2, 3}"),
                   ("<<0, 1, 2, 1>>", '{"modified", "ignored"}', '{"removed"}', 1, "{2, 4}")]
    base = tempfile.mkdtemp(prefix="jarlvcs-")
    key = lambda v: json.dumps([v["tree"], v["repos"], v["file"], v["other"], v["viol"]])
    def one(kw):
        k, (vs, seed) = kw
        rng = random.Random(seed); d = os.path.join(base, f"w{k}"); os.makedirs(d)
        names, text = make_world(d, vs[0])
        for v in vs:
            written, out, bad, how = vcs_run(cli, names, text, v, rng)
            if written != sorted(v["written"]) or out != v["outcome"] or bad:
                chk.violation(f"repositories {v['repos']}, files {v['file']}, others {v['other']}, asked for {v['req']}: wrote {written}, ended as {out!r}; expected {v['written']}, {v['outcome']!r} {bad}", dict(case=v, **how))
            else: chk.validated += 1
        shutil.rmtree(d, ignore_errors=True)
    try:
        for j, (tree, fs, os_, odd, dirs) in enumerate(trees):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Tree = {tree}
  FStates = {fs}
  OStates = {os_}
  MaxOdd = {odd}
  OddDirs = {dirs}
INVARIANTS AllOrNothing Unfixed Emit
CHECK_DEADLOCK FALSE
"""
            p = emit_with(chk, "VcsMC", cfg, f"worlds-{j}")
            by = {}
            for v in read_nd(p): by.setdefault(key(v), []).append(v)
            rng = random.Random(chk.seed + j)
            jobs = [(vs, rng.randint(0, 2**40)) for vs in by.values()]
            if not t:
                # every world, a choice of its runs
                jobs = [(rng.sample(vs, min(6, len(vs))), s) for vs, s in jobs]
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(jobs)))
        rng = random.Random(chk.seed + 77); recs = []; jobs = []
        ST = ["absent", "clean", "clean", "clean", "modified", "staged", "untracked", "ignored", "removed"]
        for k in range(1500 if t else 120):
            n = rng.randint(2, 7); tree = [0] + [rng.randint(1, d) for d in range(1, n)]
            repos = sorted(d for d in range(1, n + 1) if rng.random() < .45)
            own = lambda d: 0 if d == 0 else d if d in repos else own(tree[d - 1])
            odd = rng.random() < .6
            st = lambda d: rng.choice(ST if odd and own(d) else ["absent", "clean", "clean"])
            w = dict(tree=tree, repos=repos, file=[st(d) for d in range(1, n + 1)], other=[rng.choice(ST) if own(d) and rng.random() < .15 else "absent" for d in range(1, n + 1)], viol=[d for d in range(1, n + 1) if rng.random() < .8])
            here = [d for d in range(1, n + 1) if w["file"][d - 1] not in ("absent", "removed")]
            if not here: continue
            jobs.append((k, w, here, rng.randint(0, 2**40)))
        def rnd(job):
            k, w, here, seed = job; rng = random.Random(seed)
            d = os.path.join(base, f"r{k}"); os.makedirs(d)
            names, text = make_world(d, w)
            for _ in range(6):
                v = dict(w, req=sorted(rng.sample(here, rng.randint(1, len(here)))), fix=rng.random() < .9, dirty=rng.random() < .4, novcs=rng.random() < .5)
                written, out, bad, how = vcs_run(cli, names, text, v, rng)
                if bad: chk.violation(f"a file that was not asked for or has nothing to fix was written: {bad}", dict(case=v, **how))
                recs.append(dict(tree=v["tree"], repos=v["repos"], file=v["file"], other=v["other"], viol=v["viol"], req=v["req"], opts={x: v[x] for x in ("fix", "dirty", "novcs")}, written=written, outcome=out, how=how))
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(8) as ex: list(ex.map(rnd, jobs))
        chk.sample({k: x for k, x in recs[0].items() if k != "how"})
        validate_records(chk, "VcsTrace", TRACE % "", recs, "recorded runs", describe=lambda r: f"{json.dumps({k: x for k, x in r.items() if k != 'how'})}")
    finally:
        shutil.rmtree(base, ignore_errors=True)

# ---------------------------------------------------------------- configuration files
# one violation of each rule per line
PROBES = [("any_is_na", "any(is.na(x))"), ("any_duplicated", "any(duplicated(x))"), ("equals_na", "x == NA"), ("class_equals", 'if (class(x) == "foo") 1'),
          ("length_test", "length(x == 1)"), ("length_levels", "length(levels(x))"), ("which_grepl", 'which(grepl("a", x))'), ("redundant_equals", "if (x == TRUE) 1"),
          ("lengths", "sapply(x, length)"), ("seq", "for (i in 1:length(x)) 1"), ("repeat", "while (TRUE) f()"), ("is_numeric", "is.numeric(x) || is.integer(x)"),
          ("outer_negation", "all(!x)"), ("vector_logic", "if (x & y) 1"), ("numeric_leading_zero", "y <- .1"), ("system_file", 'system.file(file.path("a", "b"))')]
PROBE = "\n".join(c for _, c in PROBES) + "\n"
BAD_TOML = ["[lint\n", "lint = 3\n", "[lint]\nselect = 3\n", "[lint]\nselect = [1]\n", "[lint]\nselct = []\n", "[lints]\n", "select = []\n", "[lint]\nexclude = \"a\"\n", "[lint]\ndefault-exclude = \"no\"\n",
            "[lint]\nselect = [\"any_is_na\"]\nselect = []\n", "[lint]\nselect = [\"any_is_na\"\n", "[lint.assignment]\noperator = 1\n", "[lint.assignment]\nother = \"<-\"\n",
            "[lint.duplicated_arguments]\nskipped-functions = [\"a\"]\nextend-skipped-functions = [\"b\"]\n", "[lint.unused_function]\nthreshold-ignore = \"a\"\n",
            "[lint.unreachable_code]\nstopping = []\n", "[lint.undesirable_function]\nfunctions = \"a\"\n", b"[lint]\nselect = [\"\xff\"]\n", b"\xfe\xff[lint]\n"]

def config_world(base, v, rng):
    """writes the tree; returns directories and the rule that shows each configuration"""
    n = len(v["tree"]); names = [None]
    for d in range(1, n + 1):
        p = v["tree"][d - 1]
        names.append(os.path.join(names[p] if p else base, rng.choice(["d", "R", "sub dir", "p.k"]) + str(d)))
        os.makedirs(names[d])
    udir = os.path.join(base, "xdg", "jarl"); os.makedirs(udir)
    rules = [r for r, _ in PROBES]; rng.shuffle(rules); shows = {}
    def put(d, dirname, c):
        def good(name, w):
            shows[(d, w)] = rules.pop()
            with open(os.path.join(dirname, name), "w") as f: f.write(rng.choice(["", "# a comment\n", "\n"]) + f"[lint]\nselect = [\"{shows[(d, w)]}\"]\n")
        def bad(name):
            t = rng.choice(BAD_TOML)
            with open(os.path.join(dirname, name), "wb") as f: f.write(t if isinstance(t, bytes) else t.encode())
        if c in ("visible", "both", "shadowed"): good("jarl.toml", "visible")
        if c in ("hidden", "both"): good(".jarl.toml", "hidden")
        if c == "empty":
            with open(os.path.join(dirname, rng.choice(["jarl.toml", ".jarl.toml"])), "w") as f: f.write(rng.choice(["", "[lint]\n", "# nothing\n"]))
        if c in ("bad", "badboth"): bad("jarl.toml")
        if c in ("badhidden", "shadowed"): bad(".jarl.toml")
        if c == "badboth": good(".jarl.toml", "hidden")
    put(0, udir, v["user"])
    for d in range(1, n + 1):
        put(d, names[d], v["cfg"][d - 1])
        if d in v["has"]:
            with open(os.path.join(names[d], "f.R"), "w") as f: f.write(PROBE)
    names[0] = udir
    return names, shows

def config_run(cli, base, names, shows, v, rng, asked):
    args = []
    cwd = rng.choice([base] + names[1:])
    for a in v["args"]:
        p = os.path.join(names[a["d"]], *(["f.R"] if a["k"] == "file" else []))
        for _ in range(rng.choice([1, 1, 2])): args.append(p if rng.random() < .4 else os.path.relpath(p, cwd))
    rng.shuffle(args)
    r = jarl(cli, ["check", *args, "--output-format", "json"], cwd, env=dict(XDG_CONFIG_HOME=os.path.join(base, "xdg"), STAND_SHUFFLE=str(rng.randint(1, 10**6)), RAYON_NUM_THREADS=str(rng.choice([1, 4]))))
    how = dict(args=args, cwd=cwd, stdout=r.stdout[:2000], stderr=r.stderr[:2000], code=r.returncode)
    if r.returncode not in (0, 1):
        if r.returncode != 255 and r.returncode != 2: return dict(crash=True, how=how)
        text = r.stderr + r.stdout
        named = [d for d in range(len(names)) if re.search(re.escape(names[d]) + r"/\.?jarl\.toml", text)]
        return dict(failed=True, named=named, gov=[], how=how)
    try: diags = json.loads(r.stdout)["diagnostics"] if r.stdout.strip().startswith("{") else []
    except Exception: return dict(crash=True, how=how)
    by = {}
    for x in diags: by.setdefault(os.path.normpath(os.path.join(cwd, x["filename"])), set()).add(x["message"]["name"])
    gov = []; inv = {r: k for k, r in shows.items()}
    every = {r for r, _ in PROBES}
    for p, rules in by.items():
        d = next((d for d in range(1, len(names)) if os.path.join(names[d], "f.R") == p), None)
        if d is None: return dict(crash=True, how=how)
        if rules == every: gov.append([d, -2, "all"])
        elif len(rules) == 1 and next(iter(rules)) in inv: gov.append([d, *inv[next(iter(rules))]])
        else: gov.append([d, -3, f"{sorted(rules)}"])
    return dict(failed=False, named=[], gov=gov, how=how)

def C01(chk):
    cli = build("jarl"); t = chk.thorough
    runs = [("<<0, 1, 2>>", '{"none", "visible", "both", "bad", "empty"}', '{"none", "visible", "bad"}', 2),
            ("<<0, 1, 1>>", '{"none", "hidden", "shadowed", "badhidden"}', '{"none", "hidden", "both", "empty"}', 2)]
    if t: runs = [("<<0, 1, 2>>", '{"none", "visible", "hidden", "both", "bad", "empty"}', '{"none", "visible", "both", "bad", "shadowed"}', 3),
                  ("<<0, 1, 1>>", '{"none", "hidden", "visible", "shadowed", "badhidden", "badboth"}', '{"none", "hidden", "badhidden", "empty"}', 3),
                  ("<<0, 1, 2, 1>>", '{"none", "visible", "bad"}', '{"none", "visible"}', 3)]
    base = tempfile.mkdtemp(prefix="jarlcfg-")
    def same(want, got):
        """an empty configuration and none at all cannot be told apart by the reports"""
        w = sorted([d, g, k] if k not in ("empty", "default") else [d, -2, "all"] for d, g, k in want)
        return w == sorted(got)
    def one(kw):
        k, (vs, seed) = kw
        rng = random.Random(seed); d = os.path.join(base, f"w{k}"); os.makedirs(d)
        names, shows = config_world(d, dict(vs[0], has=list(range(1, len(vs[0]["tree"]) + 1))), rng)
        for v in vs:
            o = config_run(cli, d, names, shows, v, rng, None)
            bad = None
            if o.get("crash"): bad = "the run did not end as it should"
            elif o["failed"]:
                if not v["may"]: bad = "no configuration is malformed, but the run failed"
                elif not o["named"] or any((v["user"] if x == 0 else v["cfg"][x - 1]) not in ("bad", "badboth", "badhidden") for x in o["named"]): bad = f"the error does not name the malformed configuration but {o['named']}"
            elif v["must"]: bad = f"a malformed configuration ({v['broken']}) governs a file, but was ignored"
            elif not same(v["gov"], o["gov"]): bad = f"files were checked under {o['gov']} instead of {v['gov']}"
            if bad: chk.violation(f"configurations {v['cfg']}, user level {v['user']}, tree {v['tree']}, asked for {[(a['k'], a['d']) for a in v['args']]}: {bad}", dict(case=v, **o["how"]))
            else: chk.validated += 1
        shutil.rmtree(d, ignore_errors=True)
    try:
        for j, (tree, ck, uk, n) in enumerate(runs):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Tree = {tree}
  CKinds = {ck}
  UKinds = {uk}
  MaxArgs = {n}
INVARIANTS Nearest NotIgnored Emit
CHECK_DEADLOCK FALSE
"""
            p = emit_with(chk, "ConfigMC", cfg, f"trees-{j}")
            by = {}
            for v in read_nd(p): by.setdefault(json.dumps([v["cfg"], v["user"]]), {})[json.dumps(v["args"])] = v
            rng = random.Random(chk.seed + j)
            jobs = [(list(vs.values()), rng.randint(0, 2**40)) for vs in by.values()]
            if not t: jobs = [(rng.sample(vs, min(8, len(vs))), s) for vs, s in jobs]
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(jobs)))
        rng = random.Random(chk.seed + 5); recs = []; jobs = []
        kinds = ["none"] * 5 + ["visible", "visible", "hidden", "both", "empty"]
        for k in range(3000 if t else 250):
            n = rng.randint(2, 7); tree = [0] + [rng.randint(max(1, d - 3), d) for d in range(1, n)]
            ks = kinds + (["bad", "badhidden", "shadowed", "badboth"] if rng.random() < .4 else [])
            v = dict(tree=tree, user=rng.choice(ks), cfg=[rng.choice(ks) for _ in tree], has=[d for d in range(1, n + 1) if rng.random() < .8])
            while sum(2 if c in ("both",) else c in ("visible", "hidden", "shadowed", "badboth") for c in v["cfg"] + [v["user"]]) > len(PROBES): v["cfg"][rng.randrange(n)] = "none"
            if v["has"]: jobs.append((k, v, rng.randint(0, 2**40)))
        def rnd(job):
            k, v, seed = job; rng = random.Random(seed)
            d = os.path.join(base, f"r{k}"); os.makedirs(d)
            names, shows = config_world(d, v, rng)
            for _ in range(5):
                cands = [dict(k="file", d=x) for x in v["has"]] + [dict(k="dir", d=x) for x in range(1, len(v["tree"]) + 1)]
                w = dict(v, args=rng.sample(cands, min(len(cands), rng.randint(1, 3))))
                o = config_run(cli, d, names, shows, w, rng, None)
                if o.get("crash"): chk.violation("the run did not end as it should", dict(case=w, **o["how"])); continue
                # the reports under an empty configuration and the defaults are the same: let the model name it
                def fill(x):
                    if x[1] != -2: return x
                    y = x[0]
                    while y and w["cfg"][y - 1] == "none": y = w["tree"][y - 1]
                    c = w["cfg"][y - 1] if y else w["user"]
                    return [x[0], y, "empty"] if c == "empty" else [x[0], -1, "default"]
                recs.append(dict(w, failed=o["failed"], named=o["named"], gov=[fill(x) for x in o["gov"]], how=o["how"]))
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(8) as ex: list(ex.map(rnd, jobs))
        chk.sample({k: x for k, x in recs[0].items() if k != "how"})
        validate_records(chk, "ConfigTrace", TRACE % "", recs, "recorded runs", describe=lambda r: f"{json.dumps({k: x for k, x in r.items() if k != 'how'})}")
    finally:
        shutil.rmtree(base, ignore_errors=True)

# ---------------------------------------------------------------- which files are checked
def tl(v):
    """a TLA+ term"""
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(map(tl, v)) + ">>"
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(sorted(map(tl, v))) + "}"
    return "[" + ", ".join(f"{k} |-> {tl(x)}" for k, x in v.items()) + "]"
def nm(t):
    """a name [s, e] from its text"""
    if t == "*": return dict(s="*", e="*")
    s, _, e = t.rpartition(".") if "." in t[1:] else (t, "", "")
    return dict(s=s, e=e)
def pat(t):
    """a pattern from its text"""
    d = t.endswith("/"); u = t.rstrip("/"); lead = u.startswith("/"); u = u.lstrip("/")
    segs = [dict(s="**", e="") if x == "**" else nm(x) for x in u.split("/")]
    return dict(segs=segs, any=not lead and len(segs) == 1 and u != "**", dir=d)
def show_name(n): return "*" if n["s"] == n["e"] == "*" else n["s"] if n["s"] == "**" or not n["e"] else n["s"] + "." + n["e"]
def show_pat(p):
    u = "/".join(show_name(x) for x in p["segs"])
    return ("" if p["any"] or "/" in u or u == "**" else "/") + u + ("/" if p["dir"] else "")

RCODE = "any(is.na(x))\n"
def disc_world(base, w):
    n = len(w["tree"]); names = [None]
    for d in range(1, n + 1):
        p = w["tree"][d - 1]
        names.append(os.path.join(names[p] if p else base, show_name(w["dname"][d - 1])))
        os.makedirs(names[d])
    fs = [None]
    for f in w["files"]:
        p = os.path.join(names[f["d"]], show_name(f)); fs.append(p)
        with open(p, "w") as h: h.write(RCODE if f["e"] not in ("Rmd", "rmd", "qmd") else "text\n\n```{r}\n" + RCODE + "```\n")
    return names, fs
def disc_config(names, cfg, rng):
    for d in range(1, len(names)):
        c = cfg[d - 1]
        for x in ("jarl.toml", ".jarl.toml"):
            if os.path.exists(os.path.join(names[d], x)): os.remove(os.path.join(names[d], x))
        if not c["on"]: continue
        l = []
        if c["excl"] or rng.random() < .2: l.append("exclude = " + json.dumps([show_pat(p) for p in c["excl"]]))
        if c["incl"] or rng.random() < .2: l.append("include = " + json.dumps([show_pat(p) for p in c["incl"]]))
        if not c["def"]: l.append("default-exclude = false")
        elif rng.random() < .3: l.append("default-exclude = true")
        rng.shuffle(l)
        with open(os.path.join(names[d], rng.choice(["jarl.toml", ".jarl.toml"])), "w") as f: f.write("[lint]\n" + "\n".join(l) + "\n")
def disc_run(cli, base, names, fs, v, rng):
    args = []; cwd = rng.choice([base] + names[1:])
    for a in v["args"]:
        p = names[a["x"]] if a["k"] == "dir" else fs[a["x"]]
        for _ in range(rng.choice([1, 1, 1, 2])):
            if rng.random() < .4: args.append(p)
            else:
                r = os.path.relpath(p, cwd)
                args.append(rng.choice([r, r, "./" + r, r + "/" if a["k"] == "dir" else r]))
    rng.shuffle(args)
    r = jarl(cli, ["check", *args, *(["--no-default-exclude"] if v["nodef"] else []), "--select", "any_is_na", "--output-format", "json"], cwd,
             env=dict(STAND_SHUFFLE=str(rng.randint(1, 10**6)), RAYON_NUM_THREADS=str(rng.choice([1, 4]))))
    how = dict(args=args, cwd=cwd, stdout=r.stdout[:2000], stderr=r.stderr[:2000], code=r.returncode)
    try: diags = json.loads(r.stdout)["diagnostics"] if r.stdout.strip().startswith("{") else []
    except Exception: diags = None
    if r.returncode not in (0, 1) or diags is None: return None, "the run did not end as it should", how
    seen = [os.path.normpath(os.path.join(cwd, x["filename"])) for x in diags]
    odd = [p for p in seen if p not in fs]
    if odd: return None, f"{odd} checked, but not there", how
    if len(set(seen)) != len(seen): return None, "a file was checked twice", how
    return sorted(fs.index(p) for p in seen), None, how

def C02(chk):
    cli = build("jarl"); t = chk.thorough
    F = lambda d, x: dict(d=d, **nm(x))
    T1 = dict(tree=[0, 1, 2, 1, 4], dname=[nm("top"), nm("a"), nm("b"), nm("b"), nm("a")],
              files=[F(1, "f.R"), F(1, "g.Rmd"), F(2, "f.R"), F(2, "g.qmd"), F(3, "f.R"), F(3, "h.r"), F(4, "f.R"), F(5, "f.R"), F(2, "t.txt"), F(1, ".h.R")])
    T2 = dict(tree=[0, 1, 2, 1, 1], dname=[nm("top"), nm("a"), nm("renv"), nm("revdep"), nm(".h")],
              files=[F(1, "cpp11.R"), F(2, "RcppExports.R"), F(2, "f.R"), F(3, "f.R"), F(4, "f.R"), F(2, "import-standalone-a.R"), F(1, "extendr-wrappers.R"), F(1, "f.rmd"), F(5, "f.R"), F(2, "cpp11.r"), F(1, "import-standalone.R"), F(2, "import-standalones-a.R"), F(1, "import-standalone-a.r"), F(2, "RcppExport.R")])
    p1 = ["f.R", "a/", "b", "/f.R", "/a/", "a/*.R", "b/**/*.R", "**/a/*.R", "*.R", "a/b/", "a/**"]
    p2 = ["f.R", "a/", "*.R", "renv/", "a/*.R", "**/f.*", "/a/renv/", "cpp11.R"]
    runs = [(T1, [1, 2], ["f.R", "b", "/a/", "a/*.R", "**/a/*.R", "a/**"], 2, 1, 1, False), (T1, [1, 4], p1[:8], 1, 1, 1, True), (T2, [1, 2], ["a/", "renv/", "**/f.*", "cpp11.R"], 2, 1, 1, False)]
    if t: runs = [(T1, [1, 2], p1, 3, 1, 1, False), (T1, [1, 3], p1, 2, 2, 2, False), (T1, [1, 4], p1, 2, 2, 1, True), (T2, [1, 2], p2, 3, 2, 1, False)]
    base = tempfile.mkdtemp(prefix="jarldisc-")
    text = lambda v, w: f"configurations {[dict(c, excl=[show_pat(p) for p in c['excl']], incl=[show_pat(p) for p in c['incl']]) if c['on'] else None for c in v['cfg']]}, asked for {v['args']}"
    def one(job):
        k, w, vs, seed = job; rng = random.Random(seed)
        d = os.path.join(base, f"w{k}"); os.makedirs(d)
        names, fs = disc_world(d, w); disc_config(names, vs[0]["cfg"], rng)
        for v in vs:
            got, bad, how = disc_run(cli, d, names, fs, v, rng)
            rel = lambda xs: [os.path.relpath(fs[x], d) for x in xs]
            if bad is None and not (set(v["must"]) <= set(got) <= set(v["may"])):
                bad = f"checked {rel(got)}, expected {rel(v['must'])}" + (f" and perhaps {rel(set(v['may']) - set(v['must']))}" if v["may"] != v["must"] else "")
            if bad: chk.violation(f"{text(v, w)}: {bad}", dict(case=v, **how))
            else: chk.validated += 1
        shutil.rmtree(d, ignore_errors=True)
    try:
        for j, (w, cd, ps, mp, ma, top, anyo) in enumerate(runs):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Tree = {tl(w["tree"])}
  DNames = {tl(w["dname"])}
  Files = {tl(w["files"])}
  CfgDirs = {tl(set(cd))}
  Pats = {"{" + ", ".join(tl(pat(x)) for x in ps) + "}"}
  MaxPats = {mp}
  MaxArgs = {ma}
  Top1 = {top}
  AnyOrder = {tl(anyo)}
INVARIANTS Exactly Emit
CHECK_DEADLOCK FALSE
"""
            p = emit_with(chk, "DiscoverMC", cfg, f"trees-{j}")
            by = {}
            for v in read_nd(p): by.setdefault(json.dumps([v["cfg"], v["nodef"]]), {})[json.dumps(v["args"])] = v
            rng = random.Random(chk.seed + j)
            jobs = [(f"{j}-{k}", w, list(vs.values()), rng.randint(0, 2**40)) for k, vs in enumerate(by.values())]
            if not t: jobs = [(k, w, rng.sample(vs, min(5, len(vs))), s) for k, w, vs, s in jobs]
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
        rng = random.Random(chk.seed + 9); recs = []; jobs = []
        DN = ["a", "a", "b", "c", "renv", ".h", "revdep", "renvs", "revdep2", "cpp11"]; FN = ["f.R", "f.R", "g.R", "f.Rmd", "g.qmd", "g.r", "t.txt", ".h.R", "cpp11.R", "RcppExports.R", "import-standalone-a.R", "import-standalone-.R", "f.rmd",
              "import-standalone.R", "import-standalones.R", "import-standalone-a.r", "import-standalone-a.Rmd", "my-import-standalone-a.R", "cpp11.Rmd", "cpp11x.R", "RcppExport.R", "extendr-wrapper.R", "renv.R", "revdep.R"]
        PT = ["f.R", "g.R", "a/", "b/", "a", "/f.R", "/a/", "/a", "a/*.R", "a/f.R", "b/**/*.R", "**/a/*.R", "**/b/", "*.R", "*.Rmd", "f.*", "a/b/", "a/**", "**/a/**", "a/*", "*", "/*", "/*.R", "a/*/f.R", "c/b/a/"]
        for k in range(3000 if t else 250):
            n = rng.randint(1, 6); tree = [0] + [rng.randint(max(1, d - 3), d) for d in range(1, n)]
            used = set(); dn = [nm("top")]; files = []
            for d in range(2, n + 1):
                c = [x for x in DN if (tree[d - 1], x) not in used] or [f"d{d}"]
                x = rng.choice(c); used.add((tree[d - 1], x)); dn.append(nm(x))
            for d in range(1, n + 1):
                for x in rng.sample(sorted(set(FN)), rng.randint(0, 3)): files.append(dict(d=d, **nm(x)))
            if not files: continue
            ps = lambda m: [pat(x) for x in rng.sample(PT, rng.randint(0, m))]
            cfg = [dict(on=rng.random() < .45, excl=ps(2), incl=ps(2) if rng.random() < .4 else [], **{"def": rng.random() < .7}) for _ in tree]
            jobs.append((k, dict(tree=tree, dname=dn, files=files, cfg=cfg, nodef=rng.random() < .2), rng.randint(0, 2**40)))
        def rnd(job):
            k, w, seed = job; rng = random.Random(seed)
            d = os.path.join(base, f"r{k}"); os.makedirs(d)
            names, fs = disc_world(d, w); disc_config(names, w["cfg"], rng)
            cands = [dict(k="dir", x=x) for x in range(1, len(names))] + [dict(k="file", x=x) for x in range(1, len(fs))]
            for _ in range(4):
                v = dict(w, args=rng.sample(cands, min(len(cands), rng.randint(1, 3))) if rng.random() < .7 else [dict(k="dir", x=1)])
                got, bad, how = disc_run(cli, d, names, fs, v, rng)
                if bad: chk.violation(f"{text(v, w)}: {bad}", dict(case=v, **how)); continue
                recs.append(dict(v, checked=got, how=how))
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(8) as ex: list(ex.map(rnd, jobs))
        chk.sample({k: x for k, x in recs[0].items() if k != "how"})
        validate_records(chk, "DiscoverTrace", TRACE % "", recs, "recorded runs",
                         describe=lambda r: f"files {[(f['d'], show_name(f)) for f in r['files']]} of tree {r['tree']} {[show_name(x) for x in r['dname']]}, {text(r, r)} nodef={r['nodef']}: checked {r['checked']}")
    finally:
        shutil.rmtree(base, ignore_errors=True)

# ---------------------------------------------------------------- options of rules
LISTS = {"duplicated_arguments": "skipped-functions", "implicit_assignment": "skipped-functions", "undesirable_function": "functions", "unreachable_code": "stopping-functions"}
def option_toml(v, rng):
    """the configuration for base, ext and the operator"""
    out = []; tables = {}
    for r, field in LISTS.items():
        l = []
        for pre, o in (("", v["base"][r]), ("extend-", v["ext"][r])):
            if o["set"]:
                ns = list(o["names"]) + ([rng.choice(o["names"])] if o["names"] and rng.random() < .2 else []); rng.shuffle(ns)
                l.append(f"{pre}{field} = {json.dumps(ns)}")
        rng.shuffle(l)
        if l or rng.random() < .15: tables[r] = l
    legacy = None; o = v["oper"]
    if o in ("<-", "=", "bad"):
        val = json.dumps(o if o != "bad" else rng.choice(["->", "", "<<-", "equal", "< -"]))
        if rng.random() < .3: legacy = f"assignment = {val}"
        else: tables["assignment"] = [f"operator = {val}"]
    elif o:
        r = rng.choice(list(LISTS)); f = LISTS[r]
        if o == "unknown-field": r, l = rng.choice([(r, 'functons = ["a"]'), (r, f'{f.replace("-", "_")}_ = []'), ("assignment", 'op = "<-"'), ("unused_function", "extend-skipped-functions = []"), ("unused_function", "threshold = 3")])
        elif o == "wrong-type": r, l = rng.choice([(r, f'{f} = "a"'), (r, f"extend-{f} = 3"), ("assignment", "operator = 3"), ("assignment", 'operator = ["<-"]'), ("unused_function", 'threshold-ignore = "3"'), ("unused_function", 'skipped-functions = "a"')])
        elif o == "wrong-items": r, l = rng.choice([(r, f"{f} = [1]"), (r, f'extend-{f} = ["a", 1]'), ("unused_function", "skipped-functions = [true]")])
        elif o == "bad-regex": r, l = "unused_function", rng.choice(['skipped-functions = ["("]', 'skipped-functions = ["ok", "[a"]', 'skipped-functions = ["*a"]'])
        else: r, l = "unused_function", "threshold-ignore = -1"
        key = l.split(" = ")[0]
        tables[r] = [x for x in tables.get(r, []) if x.split(" = ")[0] != key] + [l]
    head = ["[lint]"] + ([legacy] if legacy else [])
    ts = list(tables.items()); rng.shuffle(ts)
    for r, l in ts: out += [f"[lint.{r}]", *l]
    return "\n".join(head + out) + "\n"

def option_run(cli, d, v, calls, rng):
    """writes a file per rule; which calls are reported"""
    forms = {"duplicated_arguments": "g <- function() {0}(a = 1, a = 2)", "implicit_assignment": "g <- function() {0}(y <- 1)", "undesirable_function": "g <- function() {0}()", "unreachable_code": "g <- function() {{ {0}(); 1 }}"}
    os.makedirs(d); calls = list(calls); rng.shuffle(calls)
    for r, f in forms.items():
        with open(os.path.join(d, r + ".R"), "w") as h: h.write("\n".join(f.format(c["p"] + c["f"]) for c in calls) + "\n")
    with open(os.path.join(d, "assignment.R"), "w") as h: h.write("a = 1\nb <- 1\n")
    with open(os.path.join(d, rng.choice(["jarl.toml", ".jarl.toml"])), "w") as h: h.write(option_toml(v, rng))
    a = ["check", ".", "--output-format", "json", "--select", ",".join([*forms, "assignment"]), *(["--assignment", v["cli"] if v["cli"] != "bad" else rng.choice(["->", "=="])] if v["cli"] else [])]
    r = jarl(cli, a, d)
    with open(os.path.join(d, "jarl.toml" if os.path.exists(os.path.join(d, "jarl.toml")) else ".jarl.toml")) as h: toml = h.read()
    how = dict(toml=toml, args=a, stdout=r.stdout[:1500], stderr=r.stderr[:1500], code=r.returncode)
    if r.returncode not in (0, 1):
        if "panicked" in r.stderr or r.returncode not in (2, 255): return None, how
        return dict(failed=True, named=[x for x in [*LISTS, "assignment"] if f"[lint.{x}]" in r.stderr + r.stdout], reports=[], assigns=[]), how
    reps = []; asg = []
    try: diags = json.loads(r.stdout)["diagnostics"] if r.stdout.strip().startswith("{") else []
    except Exception: return None, how
    for x in diags:
        f = os.path.basename(x["filename"])[:-2]; n = x["message"]["name"]; row = x["location"]["row"] - 1
        if f != n or (f == "duplicated_arguments" and calls[row]["p"] == "x$"): continue
        if f == "assignment": asg.append("=" if row == 0 else "<-")
        else: reps.append([f, calls[row]["p"], calls[row]["f"]])
    shutil.rmtree(d, ignore_errors=True)
    return dict(failed=False, named=[], reports=sorted(reps), assigns=sorted(asg)), how

def thr_run(cli, d, v, rng):
    ps = v["packs"]
    top = rng.random() < .5
    for k, p in enumerate(ps):
        q = os.path.join(d, f"p{k + 1}"); os.makedirs(os.path.join(q, "R"))
        with open(os.path.join(q, "DESCRIPTION"), "w") as f: f.write(f"Package: p{k + 1}\nVersion: 1.0\n")
        with open(os.path.join(q, "NAMESPACE"), "w") as f: f.write("export(main)\n")
        fs = list(p["funs"]); rng.shuffle(fs); cut = rng.randint(0, len(fs))
        for x, part in (("a.R", fs[:cut]), ("b.R", fs[cut:] + [list("main")])):
            with open(os.path.join(q, "R", x), "w") as f: f.write("\n".join("".join(n) + " <- function() 1" for n in part) + "\n")
        t = []
        if p["skip"]: t.append("skipped-functions = " + json.dumps([("^" if s["from"] else "") + "".join(s["s"]).replace(".", "\\.") + ("$" if s["to"] else "") for s in p["skip"]]))
        if p["thr"] >= 0: t.append(f"threshold-ignore = {p['thr']}")
        if p["named"]: l = ["[lint]", rng.choice(['extend-select = ["unused_function"]', 'select = ["unused_function", "any_is_na"]'])]
        else: l = ["[lint]", rng.choice(['extend-select = ["CORR"]', 'select = ["ALL"]', 'select = ["PERF", "CORR"]'])]  # by a group: selected, but not by name
        with open(os.path.join(q, "jarl.toml"), "w") as f: f.write("\n".join(l + (["[lint.unused_function]"] + t if t else [])) + "\n")
    a = ["check", *(rng.sample([f"p{k + 1}" for k in range(len(ps))], len(ps)) if rng.random() < .5 else ["."]), "--output-format", "json"]
    if v["named"]: a += rng.choice([["--extend-select", "unused_function"], ["--select", "unused_function"], ["--select", "any_is_na,unused_function"]])
    elif rng.random() < .3: a += rng.choice([["--extend-select", "CORR"], ["--select", "CORR,PERF"]]) if not any(p["named"] for p in ps) else ["--extend-select", "CORR"]
    r = jarl(cli, a, d)
    how = dict(args=a, stdout=r.stdout[:1500], stderr=r.stderr[:1500], code=r.returncode)
    try: diags = json.loads(r.stdout)["diagnostics"] if r.stdout.strip().startswith("{") else []
    except Exception: diags = None
    if r.returncode not in (0, 1) or diags is None: return None, how
    out = []
    for x in diags:
        if x["message"]["name"] != "unused_function": continue
        k = int(os.path.normpath(x["filename"]).split(os.sep)[-3][1:])
        with open(os.path.join(d, f"p{k}", "R", os.path.basename(x["filename"]))) as f: line = f.read().splitlines()[x["location"]["row"] - 1]
        out.append([k, list(line.split(" ")[0])])
    shutil.rmtree(d, ignore_errors=True)
    return sorted(out), how

def C03(chk):
    cli = build("jarl"); t = chk.thorough
    base = tempfile.mkdtemp(prefix="jarlopt-")
    try:
        bad = '{"", "<-", "=", "bad", "unknown-field", "wrong-type", "wrong-items", "bad-regex", "negative"}'
        runs = [('{{}, {"mine", "my.f"}}', 1 + t, bad, '{"", "<-", "=", "bad"}')]
        if not t: runs.append(('{{"mine"}}', 2, '{""}', '{""}'))
        funs = ["mine", "my.f", "other", "c", "mutate", "summarize", "transmute", "expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings", "browser", "stop", ".Defunct", "abort", "cli_abort", "q", "quit"]
        def calls_of(ls): return [dict(p=p, f=f) for p in ("", "pkg::", "pkg:::", "x$") for f in funs]
        for j, (lists, n, opers, clis) in enumerate(runs):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Lists = {lists}
  MaxSet = {n}
  Opers = {opers}
  Clis = {clis}
INVARIANTS Documented Emit
CHECK_DEADLOCK FALSE
"""
            p = emit_with(chk, "OptionsMC", cfg, f"options-{j}")
            vs = list({json.dumps(v, sort_keys=True): v for v in read_nd(p)}.values())
            cs = [c for c in calls_of(None) if c["f"] != "my.f" or j == 0]
            rng = random.Random(chk.seed + j)
            def one(job):
                k, v, seed = job; rng = random.Random(seed)
                o, how = option_run(cli, os.path.join(base, f"o{j}-{k}"), v, cs, rng)
                what = f"base { {r: x['names'] for r, x in v['base'].items() if x['set']} }, extend { {r: x['names'] for r, x in v['ext'].items() if x['set']} }, operator {v['oper']!r}, command line {v['cli']!r}: "
                if o is None: what += "the run did not end as it should"
                elif o["failed"] != v["fails"]: what += "accepted" if v["fails"] else "refused"
                elif o["failed"]:
                    if v["conflicts"] and v["oper"] == "" and v["cli"] == "" and not set(o["named"]) & set(v["conflicts"]): what += "the error does not name the rule"
                    else: chk.validated += 1; return
                elif o["reports"] != sorted(v["reports"]): what += f"reported but should not: {[x for x in o['reports'] if x not in v['reports']]}, not reported: {[x for x in v['reports'] if x not in o['reports']]}"
                elif o["assigns"] != sorted(v["assigns"]): what += f"assignment operators reported: {o['assigns']}, should be {v['assigns']}"
                else: chk.validated += 1; return
                chk.violation(what, dict(case={k: v[k] for k in ("base", "ext", "oper", "cli")}, **how))
            jobs = [(k, v, rng.randint(0, 2**40)) for k, v in enumerate(vs)]
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
        # thresholds
        nm_ = lambda s: list(s)
        P = lambda s, f, to: {"from": f, "s": list(s), "to": to}
        for j, (names, pats, thrs, mp, np_) in enumerate([(["aa", "ab", "b.a"], [P("a", True, False), P("a", False, True), P("b.", False, False), P("ab", True, True)], [-1, 0, 1, 2, 3], 2, 1), (["aa", "ab"], [], [-1, 0, 1, 2], 0, 2)] + ([(["aa", "ab"], [], [-1, 1], 0, 3)] if t else [])):
            cfg = f"""SPECIFICATION Spec
CONSTANTS
  Names = {"{" + ", ".join(tl(list(x)) for x in names) + "}"}
  Patterns = {"{" + ", ".join(tl(x) for x in pats) + "}"}
  Thrs = {setof(thrs, str)}
  MaxPats = {mp}
  NPacks = {np_}
INVARIANTS Alone Emit
CHECK_DEADLOCK FALSE
"""
            p = emit_with(chk, "ThresholdMC", cfg, f"thresholds-{j}")
            rng = random.Random(chk.seed + 20 + j)
            def two(job):
                k, v, seed = job
                got, how = thr_run(cli, os.path.join(base, f"t{j}-{k}"), v, random.Random(seed))
                if got != sorted(v["shown"]): chk.violation(f"packages {v['packs']}, selected by name {v['named']}: unused functions reported {got}, should be {sorted(v['shown'])}", dict(case=v, **how))
                else: chk.validated += 1
            with ThreadPoolExecutor(8) as ex: list(ex.map(two, [(k, v, rng.randint(0, 2**40)) for k, v in enumerate(read_nd(p))]))
        # random ones
        rng = random.Random(chk.seed + 31); recs = []; jobs = []
        pool = funs[:]; pool += ["f1", "a.b", "stop2", "Stop", "expect_errors", "cc", ".f", "c_"]
        for k in range(2500 if t else 250):
            def opt():
                return dict(set=True, names=sorted(rng.sample(pool, rng.randint(0, 4)))) if rng.random() < .35 else dict(set=False, names=[])
            v = dict(base={r: opt() for r in LISTS}, ext={r: opt() for r in LISTS}, oper=rng.choice(["", "", "", "<-", "=", "=", "bad", "unknown-field", "wrong-type"]), cli=rng.choice(["", "", "", "", "<-", "="]))
            if rng.random() < .7:
                for r in LISTS:
                    if v["base"][r]["set"]: v["ext"][r] = dict(set=False, names=[])
            v["calls"] = [dict(p=rng.choice(["", "", "pkg::", "pkg:::", "x$"]), f=f) for f in rng.sample(pool, 12)]
            jobs.append((k, v, rng.randint(0, 2**40)))
        def rnd(job):
            k, v, seed = job
            o, how = option_run(cli, os.path.join(base, f"r{k}"), v, v["calls"], random.Random(seed))
            if o is None: chk.violation("the run did not end as it should", dict(case=v, **how))
            else: recs.append(dict(v, **o, how=how))
        with ThreadPoolExecutor(8) as ex: list(ex.map(rnd, jobs))
        chk.sample({k: x for k, x in recs[0].items() if k != "how"})
        validate_records(chk, "OptionsTrace", TRACE % "", recs, "recorded options", describe=lambda r: f"{json.dumps({k: x for k, x in r.items() if k != 'how'})} {r['how']['toml']!r}")
        recs = []; jobs = []
        for k in range(600 if t else 80):
            def pack():
                n = rng.choice([0, 1, 2, 3, 5, 12, 49, 50, 51, 55]) if rng.random() < .6 else rng.randint(0, 8)
                fs = set()
                while len(fs) < n: fs.add("".join(rng.choice("ab_") if x else rng.choice("abc") for x in range(rng.randint(2, 7))))  # no dots: a.b can be a method of a
                return dict(funs=[list(x) for x in sorted(fs)], skip=[P("".join(rng.choice("abc._") for _ in range(rng.randint(1, 3))), rng.random() < .4, rng.random() < .3) for _ in range(rng.choice([0, 0, 1, 2]))], thr=rng.choice([-1, -1, 0, 1, 3, 50, 51, max(n - 1, 0), n]), named=rng.random() < .2)
            jobs.append((k, dict(packs=[pack() for _ in range(rng.randint(1, 3))], named=rng.random() < .2), rng.randint(0, 2**40)))
        def rnd2(job):
            k, v, seed = job
            got, how = thr_run(cli, os.path.join(base, f"s{k}"), v, random.Random(seed))
            if got is None: chk.violation("the run did not end as it should", dict(case=v, **how))
            else: recs.append(dict(v, shown=got, how=how))
        with ThreadPoolExecutor(8) as ex: list(ex.map(rnd2, jobs))
        validate_records(chk, "ThresholdTrace", TRACE % "", recs, "recorded packages", describe=lambda r: f"{json.dumps({k: x for k, x in r.items() if k != 'how'})}")
    finally:
        shutil.rmtree(base, ignore_errors=True)
