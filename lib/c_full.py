"""Checks on the whole of jarl-core and the command line, compiled over the stand-ins."""
from vlib import *
from c_core import TRACE, emit, replay, record

def jarl(cli, args, cwd, env=None, timeout=120, stdin=None):
    e = dict(NO_COLOR="1", HOME=cwd, XDG_CONFIG_HOME=os.path.join(cwd, ".nowhere")); e.update(env or {})
    return run([cli, *args], cwd=cwd, env=e, timeout=timeout, stdin=stdin)

CLASS = {"\n": "nl", "\r": "cr"}
def abstract(s):
    return [CLASS.get(c) or {1: c, 2: "e2", 3: "e3", 4: "e4"}[len(c.encode())] for c in s]

def parse_concise(out):
    return [(m[1], int(m[2]), int(m[3]), m[4], m[5]) for m in (re.match(r"(.*?) \[(\d+):(\d+)\] (\S+) (.*)$", l) for l in out.splitlines()) if m]
def parse_github(out):
    r = []
    for l in out.splitlines():
        m = re.match(r"::warning title=Jarl \((\w+)\),file=(.*?),line=(\d+),col=(\d+)::(.*?):(\d+):(\d+) \[(\w+)\] (.*)$", l)
        if m:
            same = m[2] == m[5] and m[3] == m[6] and m[4] == m[7] and m[1] == m[8]
            r.append((m[2], int(m[3]), int(m[4]) if same else -1, m[1], m[9]))
    return r
def parse_full(out):
    r = []; rule = None
    for l in out.splitlines():
        m = re.match(r"warning: (\w+)$", l)
        if m: rule = m[1]
        m = re.match(r"\s*--> (.*?):(\d+):(\d+)$", l)
        if m and rule: r.append((m[1], int(m[2]), int(m[3]), rule, None)); rule = None
    return r

def F01(chk):
    b = build("hfull")
    t4 = '{<<"a","e2","nl">>, <<"e3","a">>, <<"a","a","a">>}'
    runs = [(t4, 2, '{<<>>, <<"b">>, <<"e2","b","b","b">>}', True, True),
            ('{<<"a","e2","b","a","b">>}', 3, '{<<"e3">>, <<"b","b","b","b","b">>}', False, False)]
    if chk.thorough:
        runs = [('{<<"a","e2","nl","b">>, <<"e4","a","a","e2">>, <<"a","a","a","a">>, <<>>}', 2, '{<<>>, <<"b">>, <<"e4","b">>, <<"e2","b","b","b","b","b">>}', True, True),
                ('{<<"a","e2","b","a">>, <<"e3","a","nl","b">>}', 3, '{<<>>, <<"e3">>, <<"b","b","b","b","b","b">>}', False, True),
                ('{<<"a","b","a","b","a","b">>}', 3, '{<<"e3">>, <<"b","b","b","b","b","b","b">>}', False, False)]
    for k, (texts, n, cont, ins, skip) in enumerate(runs):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Texts = {texts}
  MaxFixes = {n}
  Contents = {cont}
  Inserts = {'TRUE' if ins else 'FALSE'}
  WithSkip = {'TRUE' if skip else 'FALSE'}
INVARIANTS InPlace Untouched Complete Emit
CHECK_DEADLOCK FALSE
"""
        # TLA+ configuration files have no tuples: put the constants into a module of their own
        p = emit_with(chk, "ApplyFixesMC", cfg, f"passes-{k}")
        replay(chk, b, ["replay-fixes", p], "passes")
    rec = chk.path("rec.nd")
    record(chk, b, ["record-fixes", chk.seed, 12000 if not chk.thorough else 150000, rec], rec, "ApplyFixesTrace", "recorded passes",
           describe=lambda r: f"{r['text']!r} with {json.dumps(r['f'])} became {r['result']!r} (left out: {r['k']})")

def emit_with(chk, module, cfg, label, timeout=700):
    """emit() for constants that a configuration file cannot express: they become
    definitions of a generated module extending `module`."""
    name = f"{module}_{re.sub('[^A-Za-z0-9]', '_', label)}"
    defs = []; keep = []
    in_const = False
    for l in cfg.splitlines():
        if l.startswith("CONSTANTS"): in_const = True; continue
        m = re.match(r"\s+(\w+) = (.*)$", l) if in_const else None
        if m: defs.append((m[1], m[2]))
        else: in_const = False; keep.append(l)
    d = chk.path("mod-" + name); os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS {module}\n" + "".join(f"C_{a} == {b}\n" for a, b in defs) + "====\n")
    cfg2 = "\n".join(keep) + "\nCONSTANTS\n" + "".join(f"  {a} <- C_{a}\n" for a, _ in defs)
    return emit(chk, os.path.join(d, name), cfg2, label, timeout)

def A04(chk):
    b = build("hfull")
    chars = '{"%", " ", "0", "2", "$", "*", ".", "s", "y", "e2"}'
    runs = [(chars, 5)] if not chk.thorough else [(chars, 6), ('{"%", "-", "1", "$", "*", ".", "d"}', 7)]
    for k, (cs, n) in enumerate(runs):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Alphabet = {cs}
  MaxLen = {n}
INVARIANTS NeedsSome LiteralsOnly OneRun Emit
CHECK_DEADLOCK FALSE
"""
        p = emit(chk, "SprintfMC", cfg, f"formats-{k}")
        replay(chk, b, ["replay-sprintf", p], "formats")
    rec = chk.path("rec.nd")
    record(chk, b, ["record-sprintf", chk.seed, 15000 if not chk.thorough else 150000, rec], rec, "SprintfTrace", "recorded calls",
           describe=lambda r: f"{r['call']} was judged {r['v']}")

def O01(chk):
    b = build("hfull"); cli = build("jarl")
    every = '{"viol", "inner", "comm", "s2", "s3", "s4", "multi", "nl", "crlf", "sp", "tab", "note"}'
    some = '{"viol", "comm", "s2", "nl", "sp", "multi"}'
    for k, (ps, n) in enumerate([(every, 3), (some, 5)] if not chk.thorough else [(every, 4), (some, 6)]):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Pieces = {ps}
  MaxPieces = {n}
INVARIANTS RowsGrow InText Emit
CHECK_DEADLOCK FALSE
"""
        p = emit(chk, "LocateMC", cfg, f"texts-{k}")
        replay(chk, b, ["replay-locate", p], "texts")
    d = tempfile.mkdtemp(prefix="jarlloc-")
    try:
        rec = chk.path("rec.nd")
        n = 300 if not chk.thorough else 4000
        outs, bads = harness(chk, b, ["record-locate", chk.seed, n, rec, d], label="reports")
        for x in bads: chk.violation(x["what"], x["case"])
        recs = [dict(r, shown=dict(api=[r["api"][0], r["api"][1] + 1])) for r in read_nd(rec)]
        args = ["check", ".", "--select", "any_is_na,blanket_suppression,misplaced_suppression", "--min-r-version", "9.9"]
        res = {f: jarl(cli, [*args, "--output-format", f], d) for f in ("json", "concise", "github", "full")}
        js = json.loads(res["json"].stdout)["diagnostics"]
        shown = dict(concise=parse_concise(res["concise"].stdout), github=parse_github(res["github"].stdout), full=parse_full(res["full"].stdout))
        for f, s in shown.items():
            if [x[0] for x in s] != [x["filename"] for x in js] or [x[3] for x in s] != [x["message"]["name"] for x in js]:
                chk.violation(f"output format {f} does not report the same violations in the same order as json", dict(json=len(js), other=len(s)))
                break
        else:
            byfile = {(r["file"], r["rule"], r["s"]): r for r in recs}
            for i, x in enumerate(js):
                r = byfile.get((x["filename"], x["message"]["name"], x["range"][0]))
                if r is None: chk.violation("the command line reports a violation the library does not", x); continue
                r["shown"] = {f: [s[i][1], s[i][2]] for f, s in shown.items()}
                r["shown"]["json"] = [x["location"]["row"], x["location"]["column"] + 1]
        if recs: chk.sample(recs[0]); chk.sample(recs[-1])
        validate_records(chk, "LocateTrace", TRACE % "", recs, "reported locations",
                         describe=lambda r: f"{r['rule']} at character {r['k']} of {''.join(x if len(x) == 1 else '<' + x + '>' for x in r['t'])!r}: {r['api']} {r['shown']}")
    finally:
        shutil.rmtree(d, ignore_errors=True)

SUPP = "RuleApart ElsewhereNot RegionsEnclose FileFirst OneReport EveryComment"
def lines(ks, rules="A", eol=()):
    """the lines [k, r, t] for the given kinds of lines"""
    with_rule = {"v", "wrap", "node", "start", "end", "file", "item", "chunk1", "noexpl", "itemno"}
    return "{" + ", ".join(f'L("{k}", "{r}", "{t}")' for k in ks for r in (rules if k in with_rule else [""])
                           for t in [""] + (["A"] if k in eol else [])) + "}"

def suppress(chk, what, rmd, runs, nrec):
    b = build("hfull")
    kind = "rmd" if rmd else "r"
    for k, (ls, n) in enumerate(runs):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Lines = {ls}
  MaxLines = {n}
INVARIANTS {SUPP} Emit
CHECK_DEADLOCK FALSE
"""
        p = emit_with(chk, "SuppressMC", cfg, f"{kind}-documents-{k}")
        replay(chk, b, ["replay-suppress", p, kind, what], "documents")
    rec = chk.path(f"rec-{kind}.nd")
    record(chk, b, ["record-suppress", chk.seed, nrec, rec, kind], rec, "SuppressTrace", f"recorded {kind} documents", env=dict(WHAT=what),
           describe=lambda r: f"{r['rules']} selected with {r['sel']} in {r['text']!r}: reported {r['rep']}, outdated {r['unused']}, defects {r['defects']}")

def suppressions(chk, what):
    t = chk.thorough
    runs = [(lines(["v", "brace", "fn", "close", "node", "start", "end", "file", "plain"], eol=["fn", "close", "v"]), 5 + t),
            (lines(["v", "if", "else", "close", "node", "start", "end"]), 6 + t),
            (lines(["v", "call", "brace", "close", "node", "start", "end"], eol=["call", "v"]), 5 + t),
            (lines(["v", "wrap", "close", "node", "start", "end"], "AB", eol=["close"]), 4 + t),
            (lines(["v", "wrap", "call", "close", "node", "start", "end"]), 5 + t),
            (lines(["v", "node", "start", "end", "file", "blanket", "badname", "noexpl", "chunk1"], "AB"), 3 + t)]
    suppress(chk, what, False, runs, 60000 if t else 4000)
    runs = [(lines(["v", "fn", "close", "node", "start", "end", "file", "chunk"]), 5 + t),
            (lines(["v", "node", "file", "hdr", "item", "chunk", "torn"]), 5 + t),
            (lines(["v", "ok", "hdr", "item", "itembad", "itemno", "chunk1", "chunk", "plain"]), 4 + t),
            (lines(["v", "hdr", "item", "file", "chunk", "node"], "AB"), 4 + t)]
    suppress(chk, what, True, runs, 60000 if t else 4000)
def S02(chk): suppressions(chk, "hide")
def S03(chk): suppressions(chk, "account")

def M02(chk):
    b = build("hfull"); cli = build("jarl")
    t = chk.thorough
    for k, (ps, n) in enumerate([('{"prose", "open", "iopen", "other", "close", "viol", "mb", "multi", "broken"}', 5 + t),
                                 ('{"open", "close", "viol", "in", "mb", "sup", "blank", "ok", "broken"}', 6 + t)]):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Pieces = {ps}
  MaxLines = {n}
INVARIANTS Stands InOrder Position Emit
CHECK_DEADLOCK FALSE
"""
        p = emit(chk, "ChunkMapMC", cfg, f"notebooks-{k}")
        replay(chk, b, ["replay-chunks", p], "notebooks")
    d = tempfile.mkdtemp(prefix="jarlnb-")
    try:
        rec = chk.path("rec.nd")
        record(chk, b, ["record-chunks", chk.seed, 40000 if t else 3000, rec, d], rec, "ChunkMapTrace", "recorded notebooks",
               describe=lambda r: f"{r['text']!r}: chunks alone {r['local']}, notebook {r['global']}")
        # no option changes a notebook
        before = {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}
        plain = jarl(cli, ["check", ".", "--output-format", "json"], d)
        for opts in (["--fix"], ["--fix", "--unsafe-fixes"], ["--fix-only", "--fix"], ["--unsafe-fixes"]):
            r = jarl(cli, ["check", ".", "--allow-no-vcs", "--output-format", "json", *opts], d)
            for f, c in before.items():
                if open(os.path.join(d, f), "rb").read() != c:
                    chk.violation(f"jarl check {' '.join(opts)} changed a notebook", dict(file=c.decode()))
                    break
            # with only fixing asked for, nothing else is promised about the report
            if "--fix-only" not in opts and (json.loads(r.stdout) != json.loads(plain.stdout)):
                chk.violation(f"jarl check {' '.join(opts)} reports other violations of notebooks than jarl check", dict(files=len(before)))
        chk.validated += len(before)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def opt(*ls):
    """a list that is not given (None) or given with these names, as TLA+ values"""
    return "{" + ", ".join("<<>>" if l is None else "<<<<" + ", ".join(f'"{x}"' for x in l) + ">>>>" for l in ls) + "}"

def R02(chk):
    b = build("hfull")
    t = chk.thorough
    V = "{<<>>, <<4, 4, 0>>, <<4, 5, 0>>}"
    D = "{{}, {<<4, 5, 0>>}, {<<4, 3, 9>>, <<4, 4, 0>>}}"
    runs = [  # command line lists, file lists, versions
        (opt(None, ["grepv"], ["READ"], ["PERF", "nope"], ["ALL"]), opt(None, ["TESTTHAT"], ["any_is_na", "PERF"]), opt(None, ["grepv"], ["READ", "any_is_na"], ["perf"]),
         opt(None, [], ["any_is_na", "coalesce"], ["ALL"]), opt(None, ["TESTTHAT", "list2df"], ["nope"]), opt(None, [], ["PERF"], ["ALL"]), "{<<>>, <<4, 4, 0>>}", "{{}, {<<4, 5, 0>>}}"),
        (opt(None, ["coalesce", "grepv", "list2df", "any_is_na"]), opt(None, ["ALL"]), opt(None, ["COMM"]), opt(None, ["grepv"]), opt(None, ["READ"]), opt(None), V, D)]
    if t:
        runs.append((opt(None, ["SUSP"], ["assignment", "SUSP"], ["ALL", "READ"], ["foo"]), opt(None, ["CORR"], ["ALL"], ["undesirable_function"], [""]), opt(None, ["SUSP"], ["all_equal"], ["ALL"]),
                     opt(None, [], ["COMM"], ["ALL"], ["nope"]), opt(None, [], ["CORR", "assignment"], ["TESTTHAT"], ["corr"]), opt(None, ["browser"], ["CORR"], ["ALL"], ["All"]), V, "{{}, {<<4, 4, 0>>}}"))
    table = chk.path("names")
    with open(os.path.join(SPEC, "RuleTable.tla")) as f, open(table, "w") as g:
        g.write("\n".join(re.findall(r'name \|-> "(\w+)"', f.read())))
    d = tempfile.mkdtemp(prefix="jarlsel-")
    try:
        for k, r in enumerate(runs):
            names = ["Sels", "Exts", "Igns", "FSels", "FExts", "FIgns", "CVers", "Descs"]
            cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {a} = {c}\n" for a, c in zip(names, r)) + \
                "INVARIANTS ErrorsExactly MemberWise IgnoringWins VersionGate NothingUnknown Emit\nCHECK_DEADLOCK FALSE\n"
            p = emit_with(chk, "SelectMC", cfg, f"requests-{k}")
            replay(chk, b, ["replay-select", p, d, table], "requests")
        rec = chk.path("rec.nd")
        record(chk, b, ["record-select", chk.seed, 40000 if t else 4000, rec, d], rec, "SelectTrace", "recorded requests",
               describe=lambda r: f"{json.dumps(r['r'])}: {'refused' if r['failed'] else r['active']}")
    finally:
        shutil.rmtree(d, ignore_errors=True)

MODE_STMTS = {  # name: rule, declines, hidden, text, rewritten text
    "ana": ("any_is_na", 0, 0, "any(is.na(x))", "anyNA(x)"),
    "dup": ("any_duplicated", 0, 0, "any(duplicated(x))", "anyDuplicated(x) > 0"),
    "alleq": ("all_equal", 0, 0, "!all.equal(x, y)", "!isTRUE(all.equal(x, y))"),
    "none": ("duplicated_arguments", 0, 0, "list(a = 1, a = 2)", None),
    "sym": ("true_false_symbol", 0, 0, "y <- T", None),
    "dec": ("any_is_na", 1, 0, "any(is.na(\n  # why\n  x))", None),
    "hid": ("any_is_na", 0, 1, "# jarl-ignore any_is_na: here\nany(is.na(x))", None),
    "ok": ("", 0, 0, "x + 1", None)}

def run_modes(chk, cli, d, opt, files, table, ver="9.9.9"):
    """Runs the command line once over `files` ({name: [statement]}); per file: is it
    refused, which statements are rewritten and which rules are reported on them."""
    spans = {}; texts = {}
    for name, ss in files.items():
        pre = "Text.\n\n```{r}\n" if name.endswith("Rmd") else ""
        text = pre; spans[name] = []
        for s in ss:
            a = len(text.encode()); text += table[s][3] + "\n"
            spans[name].append((a, len(text.encode())))
        text += "```\n" if pre else ""
        texts[name] = text
        p = os.path.join(d, name)
        with open(p, "w") as f: f.write(text)
        os.utime(p, (1, 1))
    tl = lambda k, l: "" if l is None else f"{k} = {json.dumps(l)}\n"
    with open(os.path.join(d, "jarl.toml"), "w") as f:
        f.write("[lint]\n" + tl("fixable", opt["fixable"][0] if opt["fixable"] else None) + tl("unfixable", opt["unfixable"] or None) +
                '[lint.assignment]\noperator = "<-"\n[lint.undesirable_function]\nfunctions = ["zz"]\n')
    a = ["check", ".", "--output-format", "json", "--allow-no-vcs", "--min-r-version", ver, "--select", ",".join(opt["active"])]
    for k, o in (("fix", "--fix"), ("unsafe", "--unsafe-fixes"), ("only", "--fix-only")):
        if opt[k]: a.append(o)
    r = jarl(cli, a, d)
    refused = r.returncode not in (0, 1) and r.stdout == "" and "Unknown rule" in r.stderr
    res = {}
    js = dict(diagnostics=[])
    if not refused:
        try: js = json.loads(r.stdout)
        except ValueError:
            chk.violation("jarl check gave no report", dict(args=a, code=r.returncode, stdout=r.stdout[:300], stderr=r.stderr[:300])); return None
    by = {}
    for x in js["diagnostics"]: by.setdefault(x["filename"], []).append(x)
    fixing = opt["fix"] or opt["unsafe"] or opt["only"]
    for name, ss in files.items():
        p = os.path.join(d, name)
        with open(p) as f: now = f.read()
        if (not fixing or refused or name.endswith("Rmd")) and (os.stat(p).st_mtime_ns != 10**9 or now != texts[name]):
            chk.violation("a file was written without a fix option, although the run was refused, or although it is a notebook", dict(args=a, file=texts[name], now=now))
        # walk over the statements: each is either as before or rewritten
        pos = now.index("```{r}\n") + 7 if name.endswith("Rmd") else 0
        new = []; at = []
        for s in ss:
            o, n = table[s][3], table[s][4]
            if now.startswith(o + "\n", pos): new.append(False); k = len(o) + 1
            elif n is not None and now.startswith(n + "\n", pos): new.append(True); k = len(n) + 1
            else: new = None; break
            at.append((pos, pos + k)); pos += k
        shown = [[] for _ in ss]
        for x in by.get(name, []) if new is not None else []:
            for i, (b0, b1) in enumerate(at):
                if b0 <= x["range"][0] < b1: shown[i].append(x["message"]["name"])
        res[name] = dict(refused=refused, new=new, shown=shown, now=now, was=texts[name], args=a)
    return res

def R03(chk):
    cli = build("jarl"); t = chk.thorough
    T = lambda l: "<<" + ", ".join(f'"{x}"' for x in l) + ">>"
    stm = "{" + ", ".join(f'[n |-> "{n}", rule |-> "{s[0]}", declines |-> {"TRUE" if s[1] else "FALSE"}, hidden |-> {"TRUE" if s[2] else "FALSE"}]' for n, s in MODE_STMTS.items()) + "}"
    acts = '{{"any_is_na", "any_duplicated", "all_equal", "duplicated_arguments", "true_false_symbol"}, {"any_is_na", "true_false_symbol"}, {"all_equal", "duplicated_arguments"}}'
    fx = [None, [], ["PERF"], ["all_equal", "true_false_symbol", "duplicated_arguments"]] + ([["ALL"], ["any_is_na", "any_is"]] if t else [])
    uf = [[], ["any_is_na"], ["SUSP", "nope"], ["SUSP"]] + ([["ALL"], ["PERF"]] if t else [])
    cfg = f"""SPECIFICATION Spec
CONSTANTS
  Stmts = {stm}
  MaxLen = 2
  Actives = {acts}
  Fixables = {opt(*fx)}
  Unfixables = {"{" + ", ".join(T(u) for u in uf) + "}"}
INVARIANTS OnlyAllowed NoSilentLoss NeverUnasked UnfixableWins AllThatCan Emit
CHECK_DEADLOCK FALSE
"""
    p = emit_with(chk, "FixModeMC", cfg, "runs")
    groups = {}
    for v in read_nd(p): groups.setdefault(json.dumps(v["o"], sort_keys=True), []).append(v)
    from concurrent.futures import ThreadPoolExecutor
    base = tempfile.mkdtemp(prefix="jarlmode-")
    def one(kg):
        k, (o, vs) = kg
        o = json.loads(o); d = os.path.join(base, str(k)); os.makedirs(d)
        files = {"-".join(v["s"]) + "." + v["k"]: v for v in vs}
        res = run_modes(chk, cli, d, o, {n: v["s"] for n, v in files.items()}, MODE_STMTS)
        shutil.rmtree(d, ignore_errors=True)
        for n, v in files.items() if res else ():
            r = res[n]
            want = [[MODE_STMTS[s][0]] if x else [] for s, x in zip(v["s"], v["shown"])]
            if r["refused"] != v["refused"] or r["new"] != v["new"] or (not v["refused"] and r["shown"] != want):
                chk.violation(f"{o}: rewritten {r['new']}, reported {r['shown']}, refused {r['refused']}; expected {v['new']}, {want}, {v['refused']}",
                              dict(text=r["was"], now=r["now"], args=r["args"]))
            else: chk.validated += 1
    try:
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(groups.items())))
        # every rule, random options
        from stmts import S
        # class_equals is left out: documentation and registry disagree on it (a finding of R01)
        S = [x for x in S if x[0] != "class_equals"]
        table = {r: (r, 0, 0, o, n) for r, o, n in S}
        table["ok"] = ("", 0, 0, "x + 1", None)
        rng = random.Random(chk.seed); recs = []
        names = [r for r, _, _ in S]; G = ["PERF", "READ", "SUSP", "CORR", "TESTTHAT", "ALL"]
        pick = lambda n: [rng.choice(G) if rng.random() < 0.4 else rng.choice(names) for _ in range(rng.randint(0, n))]
        for k in range(1500 if t else 150):
            o = dict(fix=rng.random() < .6, unsafe=rng.random() < .4, only=rng.random() < .3, active=sorted(rng.sample(names, rng.randint(1, len(names)))),
                     fixable=[pick(5)] if rng.random() < .5 else [], unfixable=pick(4) if rng.random() < .5 else [])
            d = os.path.join(base, "r"); os.makedirs(d)
            files = {f"f{j}.{'Rmd' if rng.random() < .2 else 'R'}": [rng.choice([*names, "ok"]) for _ in range(rng.randint(1, 6))] for j in range(12)}
            res = run_modes(chk, cli, d, o, files, table)
            shutil.rmtree(d, ignore_errors=True)
            for n, r in (res or {}).items():
                if r["new"] is None:
                    chk.violation("a statement became something else than its documented rewrite", dict(text=r["was"], now=r["now"], args=r["args"])); continue
                recs.append(dict(o=o, f=dict(kind=n.split(".")[1], s=[dict(rule=table[s][0], declines=False, hidden=False) for s in files[n]]),
                                 refused=r["refused"], new=r["new"], shown=r["shown"], now=r["now"]))
        if recs: chk.sample(recs[0])
        validate_records(chk, "FixModeTrace", TRACE % "", recs, "recorded runs", describe=lambda r: f"{json.dumps(r['o'])}: {r['now']!r} reported {r['shown']}")
    finally:
        shutil.rmtree(base, ignore_errors=True)

# ---------------------------------------------------------------- whole runs
KINDS = {"clean": "x <- 1\n", "one": "any(is.na(x))\n", "two": "any(duplicated(x))\ny <- any(is.na(x))\n", "none": "f(list(a = 1, b = 2, c = 3, a = 4, b = 5, c = 6))\n",
         "unsafe": "!all.equal(x, y)\nlist(a = 1, a = 2)\n", "nested": "any(is.na(length(levels(x))))\n", "broken": "x <- (\n", "bytes": b"x <- '\xff'\n",
         "note": "Text\n\n```{r}\nany(is.na(x))\n```\n", "part": "```{r}\nx <- (\n```\n\n```{r}\nany(is.na(x))\n```\n", "gone": None}
NAMES = ["a b.R", "c/d'é\"[1:2].R", "e.R", "f-g.R"]  # in this order also when compared part by part
FORMATS = ["json", "concise", "full", "github", "stat"]
def run_args(fmt): return ["--statistics"] if fmt == "stat" else ["--output-format", fmt]
def variant(rng, names):
    """the same run said in another way: order and repetition of arguments, threads, order of directory entries"""
    files = list(names)
    if rng.random() < .6: rng.shuffle(files)
    if rng.random() < .4: files += rng.sample([f for f in names if names[f] is not None], rng.randint(0, sum(t is not None for t in names.values())))
    if rng.random() < .3: files.append(".")
    a = ["."] if rng.random() < .35 and all(names[f] is not None for f in names) else files
    return a, dict(RAYON_NUM_THREADS=str(rng.choice([1, 2, 8])), STAND_SHUFFLE=str(rng.randint(0, 10**6)))
def write_files(d, texts):
    for n, t in texts.items():
        if t is None: continue
        p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(t if isinstance(t, bytes) else t.encode())

def show(fmt, r, d):
    """what a run showed: [(file, row, column, rule, message)] (None: not shown by this format), the files
    with errors in order, counts by rule"""
    o = dict(code=r.returncode, rep=None, err=None, counts=None, found=None)
    named = lambda: [re.sub(r"^(Failed to parse (.*) due to syntax errors\.|Failed to read file: (.*)|(.*?): No such file.*)$", lambda m: m[2] or m[3] or os.path.relpath(m[4], d), l[7:])
                     for l in r.stderr.splitlines() if l.startswith("Error: ")]
    if fmt == "json":
        try: j = json.loads(r.stdout)
        except ValueError: o["bad"] = "no JSON"; return o
        o["rep"] = [(x["filename"], x["location"]["row"], x["location"]["column"] + 1, x["message"]["name"], " ".join(filter(None, [x["message"]["body"], x["message"]["suggestion"]]))) for x in j["diagnostics"]]
        o["err"] = [x["file"] for x in j["errors"]]; o["json"] = j["diagnostics"]
        return o
    o["err"] = named()
    if fmt == "stat":
        o["counts"] = [(m[3], int(m[1]), 1 if m[2] == "*" else 0) for m in (re.match(r"\s*(\d+) \[([* ])\] (\w+)$", l) for l in r.stdout.splitlines()) if m]
        o["passed"] = "All checks passed!" in r.stdout
        return o
    o["rep"] = dict(concise=parse_concise, github=parse_github, full=parse_full)[fmt](r.stdout)
    if fmt != "github":
        m = re.search(r"^Found (\d+) errors?\.$", r.stdout, re.M); o["found"] = int(m[1]) if m else 0
        m = re.search(r"^(\d+) fixable with", r.stdout, re.M); o["safe"] = int(m[1]) if m else 0
        m = re.search(r"(\d+) (hidden fix|fix is|fixes are)", r.stdout); o["unsafe"] = int(m[1]) if m else 0
        o["passed"] = "All checks passed!" in r.stdout
    return o

def disagreements(what, want, o, fmt, ref=None):
    """where `o` differs from what the specification says (what: report | status)"""
    bad = []
    if what == "status":
        if o["code"] != want["code"]: bad.append(f"exit code {o['code']} instead of {want['code']}")
        if "passed" in o and o["passed"] != (want["code"] == 0): bad.append("says that all checks passed" if o["passed"] else "does not say that all checks passed")
        if want["err"] and fmt == "github" and not o["err"]: bad.append("output format github does not name the files that could not be checked")
        elif o["err"] is not None and o["err"] != want["err"]: bad.append(f"names {o['err']} as the files that could not be checked instead of {want['err']}")
        return bad
    if o.get("bad"): bad.append(o["bad"])
    if o["rep"] is not None and [(x[0], x[3]) for x in o["rep"]] != want["rep"]: bad.append(f"reports {[(x[0], x[3]) for x in o['rep']]} instead of {want['rep']}")
    if ref is not None and o["rep"] is not None and [x[:4] for x in o["rep"]] != [x[:4] for x in ref]: bad.append("reports other places than the JSON format")
    if ref is not None and fmt in ("concise", "github") and o["rep"] is not None and [x[4] for x in o["rep"]] != [x[4] for x in ref]: bad.append("reports other messages than the JSON format")
    if o["counts"] is not None:
        if sorted(o["counts"]) != sorted(want["counts"]): bad.append(f"counts {o['counts']} instead of {want['counts']}")
        if [x[1] for x in o["counts"]] != sorted([x[1] for x in o["counts"]], reverse=True): bad.append("the statistics are not sorted")
    for k in ("found", "safe", "unsafe"):
        if o.get(k) is not None and o[k] != want[k] and not (k == "unsafe" and not want["rep"]): bad.append(f"summary says {k} = {o[k]} instead of {want[k]}")
    return bad

def runs(chk, what):
    cli = build("jarl"); t = chk.thorough
    cfg = f"""SPECIFICATION Spec
CONSTANTS
  Kinds = {{{", ".join(f'"{k}"' for k in KINDS)}}}
  MaxFiles = {3 if not t else 4}
INVARIANTS OneOutcome Codes Emit
CHECK_DEADLOCK FALSE
"""
    p = emit(chk, "RunMC", cfg, "runs")
    rng0 = random.Random(chk.seed)
    vecs = [(v, rng0.randint(0, 2**40)) for v in read_nd(p)]
    from concurrent.futures import ThreadPoolExecutor
    base = tempfile.mkdtemp(prefix="jarlrun-")
    stats = {}
    def one(kv):
        k, (v, seed) = kv
        rng = random.Random(seed)
        d = os.path.join(base, str(k)); os.makedirs(d)
        names = {NAMES[i]: x for i, x in enumerate(v["kinds"])}
        names = {(n[:-2] + ".Rmd" if x in ("note", "part") else n): x for n, x in names.items()}
        fs = list(names)
        write_files(d, {n: KINDS[x] for n, x in names.items()})
        want = dict(code=v["code"], rep=[(fs[i - 1], r) for i, r in v["report"]], err=[fs[i - 1] for i in v["errors"]],
                    counts=[tuple(x) for x in v["counts"]], found=len(v["report"]), safe=v["safe"], unsafe=v["unsafe"])
        ref = None
        for fmt in FORMATS + ["json"] if what == "report" else FORMATS:
            a, env = variant(rng, {n: KINDS[x] for n, x in names.items()})
            r = jarl(cli, ["check", *run_args(fmt), *a], d, env=env)
            o = show(fmt, r, d)
            if fmt == "json" and o["rep"] is not None: ref = ref or o["rep"]
            bad = disagreements(what, want, o, fmt, ref)
            if what == "report" and fmt == "stat":
                with chk.lock:
                    k2 = json.dumps([sorted(want["counts"]), not want["err"]]); s = stats.setdefault(k2, r.stdout)
                if s != r.stdout: bad.append("the statistics of the same violations differ between runs")
            for x in bad: chk.violation(f"{fmt}: {x}", dict(kinds=v["kinds"], args=a, env=env, stdout=r.stdout[:1500], stderr=r.stderr[:500]))
            if not bad: chk.validated += 1
        shutil.rmtree(d, ignore_errors=True)
    try:
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, enumerate(vecs)))
        recs = random_runs(chk, cli, base, what, 400 if t else 40)
        if what == "status": recs += failing_runs(chk, cli, base)
        chk.sample({k: x for k, x in recs[0].items() if k != "files"})
        validate_records(chk, "RunTrace", TRACE % "", recs, "recorded runs", describe=lambda r: json.dumps({k: x for k, x in r.items() if k != "files"})[:1500])
    finally:
        shutil.rmtree(base, ignore_errors=True)

def random_runs(chk, cli, base, what, n):
    """directories of files with random content, each file linted alone and all of them together"""
    from stmts import S
    rng = random.Random(chk.seed + 7); recs = []
    odd = ["# é \"quoted\" \\ \t 漢字 😀", "f(x)", "x <- 'a\\nb'", "z <- \"<&>\"", "", "if (any(is.na(x))) {\n  any(duplicated(x)) == TRUE\n}", "y = function() {\n  return(1)\n  2\n}"]
    for k in range(n):
        d = os.path.join(base, "rnd"); os.makedirs(d)
        texts = {}
        for j in range(rng.randint(1, 14)):
            name = rng.choice(["", "sub/", "sub/deep/", "s ü/", "sub-x/", "Sub/"]) + rng.choice(["a", "b", "z", "A", "é", "long name", "q'\"", "1"]) + rng.choice(["", "0", "_"]) + rng.choice([".R", ".R", ".r", ".Rmd", ".qmd"])
            body = [rng.choice(S)[1] if rng.random() < .6 else rng.choice(odd) for _ in range(rng.randint(0, 6))]
            if rng.random() < .1: body.append("(((")
            # files that begin with a line break: known finding O01-leading-newline
            while body and not body[0]: body.pop(0)
            t = "\n".join(body) + rng.choice(["", "\n"])
            if name.endswith("md"): t = "Text.\n\n" + "".join("```{r}\n" + b + "\n```\n" for b in body)
            if rng.random() < .3: t = t.replace("\n", "\r\n")
            texts[name] = t.encode() + (b"\xff" if rng.random() < .07 else b"")
        # part by part, as paths compare
        names = sorted(texts, key=lambda n: [p.encode() for p in n.split("/")])
        write_files(d, texts)
        sel = ["--extend-select", "ALL", "--min-r-version", "9.9"] if rng.random() < .6 else []
        alone = []
        for f in names:
            j = json.loads(jarl(cli, ["check", f, "--output-format", "json", *sel], d).stdout)
            alone.append(j)
        files = [dict(v=[x["message"]["name"] for x in j["diagnostics"]], err=bool(j["errors"])) for j in alone]
        for fmt in FORMATS + ["json"]:
            a, env = variant(rng, texts)
            r = jarl(cli, ["check", *run_args(fmt), *sel, *a], d, env=env)
            o = show(fmt, r, d)
            rec = dict(files=files, setup="ok", fmt=fmt, args=a, env=env, out=r.stdout[:1500], first=texts[names[0]].decode("utf-8", "replace"))
            if what == "status":
                rec["code"] = r.returncode
                if fmt != "github" and o["err"] is not None:
                    rec["errors"] = sorted(names.index(e) + 1 if e in names else 0 for e in o["err"])
            else:
                rec["code"] = -1
                if fmt == "json" and "json" in o:
                    rec["report"] = [next(([i + 1, q + 1] for i, j in enumerate(alone) for q, y in enumerate(j["diagnostics"]) if y == x), [0, 0]) for x in o["json"]]
                elif fmt in ("concise", "github", "full"):
                    # the JSON form of the same violation, looked up by what the format shows
                    flat = [((y["filename"], y["location"]["row"], y["location"]["column"] + 1, y["message"]["name"]), [i + 1, q + 1]) for i, j in enumerate(alone) for q, y in enumerate(j["diagnostics"])]
                    pos = {}
                    for key, iq in flat: pos.setdefault(key, []).append(iq)
                    rec["report"] = [(pos.get(tuple(x[:4])) or [[0, 0]])[0] if len(pos.get(tuple(x[:4]), [])) < 2 else pos[tuple(x[:4])].pop(0) for x in o["rep"]]
                if o["found"] is not None: rec["found"] = o["found"]
                if o["counts"] is not None: rec["counts"] = [[x[0], x[1]] for x in o["counts"]]
            recs.append(rec)
        shutil.rmtree(d, ignore_errors=True)
    return recs

def failing_runs(chk, cli, base):
    """runs that cannot start"""
    recs = []
    toml = lambda s: {"jarl.toml": s}
    ok = ["check", "."]
    cases = [("usage", {}, ["check", ".", "--no-such-option"]), ("usage", {}, ["check", ".", "--output-format", "xml"]), ("usage", {}, ["chck", "."]), ("usage", {}, ["check", "--fix"]),
             ("usage", {}, ["check", ".", "--assignment"]), ("usage", {}, []), ("usage", {}, ["check"]), ("usage", {}, ["--nope"])]
    cases += [("failure", toml(s), ok) for s in ("[lint", "lint = 3\n", "[lint]\nselect = [\"nope\"]\n", "[lint]\nignore = \"any_is_na\"\n", "[lint]\nunknown-field = 1\n", "[lint]\nfixable = [\"x y\"]\n",
             "[lint]\nextend-select = [\"\"]\n", "[lint]\nunfixable = [\"Any_is_na\"]\n", "[lint.assignment]\noperator = \"->\"\n", "[lint.nope]\nx = 1\n", "[other]\nx = 1\n")]
    cases += [("failure", {}, ok + a) for a in (["--select", "nope"], ["--ignore", "any_is_na,"], ["--extend-select", "perf"], ["--min-r-version", "4"], ["--min-r-version", "a.b"], ["--min-r-version", "4.1.2.3"],
             ["--assignment=->"], ["--assignment", "foo"], ["--fix"], ["--unsafe-fixes"], ["--fix-only"])]
    for setup, extra, args in cases:
        d = os.path.join(base, "fail"); os.makedirs(d)
        write_files(d, {"a.R": KINDS["one"], **extra})
        r = jarl(cli, args, d)
        with open(os.path.join(d, "a.R")) as f: same = f.read() == KINDS["one"]
        if not same or not r.stderr.strip(): chk.violation("a run that failed changed a file or gave no reason", dict(args=args, files=extra, stderr=r.stderr))
        recs.append(dict(files=[], setup=setup, code=r.returncode, args=args, extra=extra))
        shutil.rmtree(d, ignore_errors=True)
    return recs

def O02(chk): runs(chk, "report")
def O03(chk):
    import c_core
    c_core.O03(chk)
    runs(chk, "status")

def leaf(s): return "<<" + q(s) + ">>"
def q(s): return '"' + s + '"'
def term(x): return leaf(x) if isinstance(x, str) else "<<" + ", ".join([q(x[0])] + [term(y) for y in x[1:]]) + ">>"
def setof(xs, f=q): return "{" + ", ".join(map(f, xs)) + "}"

# alphabets for the rewrite system: one-place operators, two-place operators, terms with a hole, leaves, levels (quick, thorough)
def N(name, x): return ("arg", name, x)
TERMS = {
    "logic": (["any", "all", "!", "(", "is.na"], ["==", "|", "&"], [("ifelse", "_", "FALSE", "TRUE"), ("ifelse", "_", "TRUE", "FALSE"), ("&", ("ifelse", ("|", "a", "b"), "TRUE", "FALSE"), "_")], ["a", "TRUE"], 2, 3),
    "negation": (["any", "all", "!", "neg", "(", "all.equal", "isFALSE"], ["!=", "+", "|"], [("all.equal", "_", "b"), ("if", "_", "a"), ("if", "a", "_")], ["a"], 3, 3),
    "numbers": (["any", "duplicated", "length", "levels", "neg", "("], ["+", "==", ">", "^", ":"], [("length", (">", "_", "0")), ("length", ("==", ("f", "_"), ("+", "x", "1")))], ["x", "0"], 2, 3),
    "literals": (["!", "neg", "any", "is.na", "("], ["==", "!=", "%in%", "+"], [("==", "_", "NaN"), ("!=", "NULL", "_"), ("f", "_", "a")], ["x", "NA"], 2, 3),
    "statements": (["(", "{", "!", "is.null"], ["=", "->", "<-", "%||%", "+"],
        [("if", ("is.null", "a"), "_", "a"), ("if", ("is.null", "a"), "b", ("{", "_")), ("if", ("!", ("is.null", "_")), "a", "b"), ("if", ("!", ("is.null", ("(", "a"))), ("{", "a"), "_"),
         ("if", "_", ("{", ("if", "b", ("{", "x")))), ("if", "a", ("{", ("if", "_", "x"))), ("if", "a", ("{", "_")), ("f", "_")], ["a", "b"], 2, 2),
    "equals": (["(", "{", "f"], ["=", "->", "<-", "+"], [("if", "_", "a"), ("if", "a", ("{", "_")), ("ifelse", "_", "TRUE", "FALSE")], ["a", "b"], 2, 3, "="),
    "calls": (["which", "sort", "order", "any", "("], ["|>", "+", "[", "||"],
        [("which", ("grepl", "str", "_")), ("grepl", "_", "x"), ("sapply", "_", "length"), ("do.call", "cbind.data.frame", "_"), ("[", "_", ("order", "_")), ("[", ("f", "_"), ("order", "x")),
         ("||", ("is.numeric", "_"), ("is.integer", "_")), ("||", ("is.integer", "_"), ("is.numeric", "x")), ("is.numeric", "_"), ("is.integer", "_"), ("any", "_")], ["x", "is.na"], 2, 2),
    "strings": (["!", "(", "any", "nchar"], ["==", "!=", "&"],
        [("==", ("substr", "_", "1L", "3L"), "str"), ("!=", ("substr", "x", "1L", "_"), "str"), ("==", "str", ("substr", "_", "2L", ("nchar", "_"))), ("==", ("substr", "_", "2L", ("nchar", "x")), "a"), ("f", "_", "a")], ["x", "str"], 2, 2),
    "piped": (["any", "!", "is.na", "duplicated"], ["|>", "%>%"],
        [("any", ("is.na", "_"), N("na.rm", "TRUE")), ("any", ("is.na", "_"), N("k", "x")), ("any", N("na.rm", "x"), ("is.na", "_", "x")), ("any", ("is.na", "x"), "_"), ("|>", "_", ("duplicated", N("incomparables", "NA"))),
         ("|>", "_", ("any", N("na.rm", "TRUE"))), ("|>", "_", ("any", N("k", "x"))), ("|>", "_", ("any", ("!", "x"))), ("|>", "_", ("any", ("is.na", "x"))), ("%>%", "_", ("length", ("==", "x", "1"))), ("|>", "_", ("ifelse", "x", "TRUE", "FALSE")),
         ("|>", "_", ("grepl", N("pattern", "s:a.b"))), ("|>", "_", ("grepl", "s:a.b", N("x", "_"))), ("|>", "_", ("which", N("useNames", "FALSE"))), ("which", N("arr.ind", "x"), ("grepl", "s:a.b", "_")), ("length", N("x", ("<", "_", "1"))), ("all", N("na.rm", ("!", "_"))),
         ("isFALSE", ("all.equal", "x", N("tolerance", "_"))), ("|>", "_", ("all.equal", N("target", "x"))), ("|>", "_", ("sapply", "length")), ("|>", "_", ("do.call", "cbind.data.frame", "x"))], ["x", "is.na", "any", "which", "isFALSE"], 2, 2),
    "matched": (["!", "("], ["+"],
        [("sapply", "_", N("FUN", "length")), ("sapply", N("FUN", "length"), "_"), ("sapply", "length", N("X", "_")), ("sapply", "_", "length", N("simplify", "FALSE")), ("sapply", "_", "length", "x"), ("vapply", "_", "length", ("f", "1")), ("vapply", "_", N("FUN.VALUE", "x"), "length"),
         ("map_int", "_", "length"), ("map_dbl", N(".f", "length"), "_"), ("map_int", "_", "length", N("k", "x")), ("lapply", "_", "length"), ("do.call", N("args", "_"), "cbind.data.frame"), ("do.call", "s:cbind.data.frame", "_"), ("do.call", "cbind.data.frame", "_", N("quote", "TRUE")),
         ("do.call", "rbind", "_"), ("ifelse", "_", N("no", "FALSE"), N("yes", "TRUE")), ("ifelse", "_", "TRUE", N("no", "FALSE")), ("if_else", N("false", "TRUE"), "_", "FALSE"), ("if_else", "_", "FALSE", "FALSE"), ("fifelse", "_", "FALSE", "TRUE"), ("fifelse", "_", "TRUE", "FALSE", N("na", "x")), ("if_else", "_", N("yes", "TRUE"), N("no", "FALSE")),
         ("==", ("substr", "_", N("stop", "3L"), "1L"), "str"), ("!=", ("substring", N("first", "1"), "_", "x"), "a"), ("==", ("substr", "_", "1L"), "str"), ("==", ("substr", "_", "1L", "3L", "x"), "str"), ("==", ("f", "_"), ("substr", "x", "1L", "3L")), ("==", "_", ("substring", "x", "1", "2")),
         ("!=", ("substr", "_", "2L", ("nchar", N("x", "_"))), "str"), ("==", ("substr", "_", "2L", ("nchar", "_", N("type", "str"))), "str"), ("[", "_", ("order", "_", N("decreasing", "TRUE"), N("na.last", "TRUE"))), ("[", "x", ("order", "x", N("k", "_"))), ("[", "x", ("order", N("method", "_"), "x")), ("[", "x", ("order", "x", "_"))], ["x", "length"], 2, 3),
    "sequences": (["(", "neg"], [":", "+"],
        [(":", "1", ("length", "_")), (":", "1L", ("nrow", "_")), (":", "2", ("length", "_")), (":", "1", ("NCOL", "_", "x")), ("seq", ("ncol", "_")), ("seq", ("length", "_"), "x"), ("seq", N("k", ("length", "_"))), ("|>", "x", ("seq", ("length", "_"))), ("sample", (":", "1", "_"), "3L"),
         ("sample", N("size", "_"), (":", "1L", "x")), ("sample", "_", N("x", (":", "1", "x"))), ("sample", (":", "2", "_")), ("sample", "_", N("replace", "TRUE")), ("sample", N("x", "_"), (":", "1", "x")), ("|>", "_", ("sample", (":", "1", "x"))), ("apply", "_", "1", "mean"), ("apply", N("MARGIN", "2L"), N("FUN", "sum"), "_"),
         ("apply", "_", "2", "sum", N("na.rm", "TRUE")), ("apply", "_", "1", "mean", "x"), ("apply", "_", "1", "mean", N("na.rm", "x"), N("k", "x")), ("apply", "_", "1", "max"), ("apply", "_", "x", "sum"), ("|>", "_", ("apply", "x", "1", "mean")), ("system.file", ("file.path", "_", "str"), N("package", "x")),
         ("system.file", ("file.path", "_")), ("system.file", ("file.path", "_"), "x"), ("system.file", ("file.path", "str", N("fsep", "_"))), ("system.file", N("package", ("file.path", "_")))], ["x", ".5", "1"], 2, 2),
    "patterns": (["!", "which", "expect_true", "expect_false"], ["|>"],
        [("grep", "str", "_", N("value", "TRUE")), ("grep", "s:a.b", "_", N("value", "FALSE")), ("grep", "s:a.b", "_", N("value", "x")), ("grep", "_", "x", "FALSE", "FALSE", "TRUE"), ("grep", "_", "x", "FALSE", "FALSE", "FALSE"), ("grep", "_", "x", "FALSE", "FALSE", "TRUE", "x"), ("|>", "_", ("grep", "x", "x", "FALSE", "FALSE", "TRUE")),
         ("|>", "_", ("grep", "s:a.b", N("value", "TRUE"))), ("gsub", "str", "s:a.b", "_"), ("gsub", "s:a.b", "str", "_"), ("sub", "str", "_", "x", N("fixed", "FALSE")), ("sub", "str", "_", "x", N("fixed", "x")), ("sub", "str", "_", "x", "TRUE"), ("regexpr", "str", "_", "FALSE", "x", "FALSE"), ("regexpr", "str", "_", "TRUE"), ("grepl", "str", "_"), ("grepl", "str", "_", N("ignore.case", "TRUE")),
         ("grepl", N("x", "_"), "str"), ("|>", "_", ("gsub", "str", "x")), ("|>", "_", ("sub", N("pattern", "str"), N("replacement", "x"))), ("grepl", "s:a.b", "_"), ("expect_true", ("grepl", "s:a.b", "_", N("perl", "TRUE"))), ("expect_false", ("grepl", "s:a.b", "_", "x")), ("expect_true", ("grepl", "s:a.b", "_"), N("info", "x")),
         ("|>", ("grepl", "s:a.b", "_"), "expect_true"), ("|>", ("grepl", "s:a.b", "_"), ("expect_false", N("info", "x")))], ["x", "str"], 2, 2),
    "classes": (["(", "!", "neg"], ["&", "|", "&&", "||", "~"],
        [("if", ("==", ("class", "_"), "str"), "x"), ("while", ("!=", "str", ("class", "_")), "x"), ("if", ("%in%", "str", ("class", N("x", "_"))), "a", "b"), ("==", ("class", "_"), "str"), ("if", ("(", ("==", ("class", "_"), "str")), "x"), ("if", ("==", ("class", "_"), "x"), "x"), ("identical", ("class", "_"), "str"),
         ("identical", "str", ("class", "_")), ("identical", ("class", "_"), "x"), ("|>", "_", ("identical", ("class", "x"), "str")), ("while", "TRUE", "_"), ("while", "TRUE", ("{", "_", "x")), ("while", "_", ("{", "x")), ("if", "_", "x"), ("if", "_", "a", "b"), ("if", "a", "_"), ("f", N("k", "_")), ("as.raw", "_"), ("while", ("all.equal", "a", "_"), "b")], ["x", "T", "TRUE", "0x10", "0", "str"], 2, 2),
    "expectations": (["!", "(", "expect_true", "expect_false", "is.null", "length", "names"], ["&&"],
        [("expect_equal", "_", "x"), ("expect_identical", "x", "_"), ("expect_equal", "_", "TRUE"), ("expect_equal", "FALSE", "_"), ("expect_identical", "_", "NULL"), ("expect_equal", ("length", "_"), "1"), ("expect_equal", ("f", "x"), ("length", "_")), ("expect_identical", ("length", "_"), ("length", "x")), ("expect_equal", ("class", "_"), "str"), ("expect_equal", "s:integer", ("class", "_")),
         ("expect_equal", ("f", "_"), ("class", "x")), ("expect_equal", ("typeof", "_"), "s:double"), ("expect_identical", "str", ("typeof", N("x", "_"))), ("expect_true", ("is.double", "_")), ("expect_true", ("is.list", "_", "x")), ("expect_false", ("is.double", "_")), ("expect_equal", ("names", "_"), "x", N("info", "x")), ("expect_equal", "_", "TRUE", N("tolerance", "x")),
         ("expect_equal", N("expected", "_"), "x"), ("expect_equal", N("object", ("length", "_")), N("expected", "x")), ("expect_equal", N("expected", "NULL"), N("object", "_")), ("expect_true", "_", N("info", "x")), ("|>", "_", ("expect_true", ("!", "x"))), ("|>", "_", ("expect_equal", ("length", "x"), "1")), ("|>", "x", ("expect_true", "_"))], ["x", "TRUE", "NULL"], 2, 2),
    "reported": (["(", "{", "!", "any", "quote"], ["<-", "->", "+"],
        [("if", "_", "a"), ("if", "a", "_"), ("if", "a", "b", "_"), ("while", "_", "a"), ("while", "a", "_"), ("repeat", "_"), ("for", "i", "_", "a"), ("for", "i", "x", "_"), ("for", "x", "_", "b"), ("f", "a", N("k", "_")), ("[", "_", "a"), ("[", "a", "_"), ("|>", "_", ("f", "x")), ("|>", "x", ("f", "_"))], ["x", "i", "a"], 2, 3),
    "loops": (["(", "neg", "f"], [":", "|>", "+"],
        [("for", "i", "_", "a"), ("for", "x", "_", "b"), ("for", "i", "x", "_"), ("for", "x", "i", ("{", "_", "a")), ("for", "x", ("f", N("x", "_")), "a"), ("for", "i", ("[", "x", "_"), "a"), ("for", "i", ("[", "_", "x"), "a"), ("for", "i", ("f", "x", ("g", "_")), "i"), ("if", "_", "x"), ("|>", "_", ("f", "i"))], ["x", "i", "1"], 2, 3),
    "others": (["{", "f", "browser"], ["<-", "->", "=", "|>"],
        [("<-", "_", ("{",)), ("->", ("{",), "_"), ("=", "_", ("{",)), ("f", N("k", "_"), N("k", "x")), ("f", N("k", "_"), "x", N("`k`", "a")), ("c", N("k", "x"), N("k", "_")), ("f", N("k", "x"), N("n", "_")), ("|>", "_", "browser"), ("%>%", "_", ("browser", "x")), ("|>", "x", ("f", N("n", "_"), N("n", "x"))), ("f", "browser", "_"),
         ("download.file", "_"), ("download.file", "_", N("mode", "s:wb")), ("download.file", "_", "x", "s:auto", "x", "s:w"), ("download.file", "_", "x", "s:curl"), ("download.file", N("mode", "s:a"), "_"), ("download.file", "_", N("method", "s:wget"), N("mode", "s:w")), ("download.file", "x", "_", N("mode", "x")), ("|>", "_", ("download.file", "x", "s:wget")), ("|>", "_", ("download.file", "x", "s:auto", "x", "s:wb")),
         ("|>", "_", ("download.file", "x", "x", "s:wget")), ("download.file", "x", N("mode", "s:wb"), N("mode", "_")), ("download.file", "_", "x", "s:auto", "x", "s:wb")], ["x", "a"], 2, 2),
}
def signatures():
    """calls with every choice, order and naming of their arguments: formals with their values, extra named arguments, what stands around"""
    from itertools import permutations, product
    def calls(fn, formals, extra=(), most=9, around=lambda c: c):
        slots = [(n, vs) for n, vs in formals.items()] + [(n, ()) for n, _ in extra]; given = dict(extra)
        for k in range(1, min(most, len(slots)) + 1):
            for seq in permutations(slots, k):
                for as_ in product(*[[x for v in vs for x in (v, N(n, v))] if vs else [N(n, given[n])] for n, vs in seq]): yield around((fn, *as_))
    def longer(fn, formals, start):
        """the first arguments by position, up to two of the others by name, anywhere"""
        names = list(formals)
        for k in range(start, len(names) + 1):
            for vals in product(*[formals[n] for n in names[:k]]):
                yield (fn, *vals)
                for j in (1, 2):
                    for rest in permutations(names[k:], j):
                        for more in product(*[formals[n] for n in rest]):
                            for at in {0, k}: yield (fn, *vals[:at], *[N(n, v) for n, v in zip(rest, more)], *vals[at:])
    is_ = lambda c: ("==", c, "str"); TF = ["TRUE", "FALSE"]; x = ["x"]
    for c in calls("order", {"": x}, (("na.last", "TRUE"), ("decreasing", "TRUE"), ("method", "str"), ("k", "a")), 5):
        if not any(a[0] == "arg" and a[1] == "" for a in c[1:]): yield ("[", "x", c)
    yield from calls("sapply", {"X": x, "FUN": ["length", "a"]}, (("simplify", "FALSE"),))
    yield from calls("vapply", {"X": x, "FUN": ["length"], "FUN.VALUE": ["1L"]}, (("k", "a"),))
    for f in ("map_int", "map_dbl"): yield from calls(f, {".x": x, ".f": ["length"]}, (("k", "a"),))
    yield from calls("do.call", {"what": ["cbind.data.frame", "s:cbind.data.frame"], "args": x}, (("quote", "TRUE"),))
    for f, (a, b, c, d) in {"ifelse": ("test", "yes", "no", "k"), "if_else": ("condition", "true", "false", "missing"), "fifelse": ("test", "yes", "no", "na")}.items():
        yield from calls(f, {a: x, b: TF, c: TF}, ((d, "a"),), 3)
    for f, (a, b, c) in {"substr": ("x", "start", "stop"), "substring": ("text", "first", "last")}.items():
        yield from calls(f, {a: x, b: ["1L", "2"], c: ["3L", ("nchar", "x")]}, (), 3, is_)
        yield from calls(f, {a: x, b: ["1"], c: ["a"]}, (("k", "a"),), 4, is_)
    yield from calls("apply", {"X": x, "MARGIN": ["1", "2L"], "FUN": ["mean", "sum", "max"]}, (), 3)
    yield from calls("apply", {"X": x, "MARGIN": ["2"], "FUN": ["sum"]}, (("na.rm", "TRUE"), ("k", "a")), 4)
    yield from calls("sample", {"x": [(":", "1", "x")], "size": ["3L"]}, (("replace", "TRUE"), ("prob", "a")))
    for k in (("file.path", "x", "str"), ("file.path", "x"), "x"):
        for more in ((), (N("package", "str"),), (N("package", "str"), N("lib.loc", "a")), ("str",)):
            for at in {0, len(more)}: yield ("system.file", *more[:at], k, *more[at:])
    yield from longer("grep", {"pattern": ["str", "s:a.b"], "x": x, "ignore.case": TF, "perl": ["FALSE"], "value": TF, "fixed": TF}, 1)
    yield from longer("grepl", {"pattern": ["str"], "x": x, "ignore.case": TF, "perl": ["FALSE"], "fixed": TF}, 1)
    for f in ("sub", "gsub"): yield from longer(f, {"pattern": ["str"], "replacement": ["s:a.b"], "x": x, "ignore.case": TF, "perl": ["FALSE"], "fixed": TF}, 1)
    for f in ("regexpr", "gregexpr"): yield from longer(f, {"pattern": ["str"], "text": x, "ignore.case": TF, "perl": ["FALSE"], "fixed": TF}, 1)
    for f in ("expect_equal", "expect_identical"):
        for a, b in (("TRUE", "x"), ("NULL", "x"), (("length", "x"), "1"), (("names", "x"), "a"), (("class", "x"), "str"), (("typeof", "x"), "str"), (("length", "x"), ("length", "a"))):
            for u, v in ((a, b), (b, a)): yield from calls(f, {"object": [u], "expected": [v]}, (("info", "a"),))
    for f in ("expect_true", "expect_false"):
        for a in (("!", "x"), ("is.null", "x"), ("is.character", "x"), ("grepl", "s:a.b", "x"), ("grepl", N("x", "a"), "s:a.b"), ("grepl", "s:a.b", "x", N("fixed", "TRUE"))): yield from calls(f, {"object": [a]}, (("info", "x"), ("label", "a")))
    yield from longer("download.file", {"url": x, "destfile": ["a"], "method": ["s:wget", "s:auto"], "quiet": ["TRUE"], "mode": ["s:w", "s:wb"]}, 1)
    yield from calls("any", {"": [("is.na", "x"), ("duplicated", "x"), ("!", "x")]}, (("na.rm", "TRUE"), ("k", "a")))
    for inner in calls("duplicated", {"x": x}, (("fromLast", "TRUE"), ("incomparables", "FALSE"))): yield ("any", inner)
    for inner in longer("grepl", {"pattern": ["s:a.b"], "x": x, "ignore.case": TF, "fixed": TF}, 1):
        yield ("which", inner); yield ("which", inner, N("useNames", "FALSE"))
    yield from calls("all.equal", {"target": x, "current": ["a"]}, (("tolerance", "1"),), 3, lambda c: ("isFALSE", c))
def rewriting(chk, what):
    seen = dict.fromkeys(t for t in signatures() if not any(isinstance(a, tuple) and a[0] == "arg" and a[1] in ("", "...") for s in (t, *[y for y in t[1:] if isinstance(y, tuple)]) for a in s[1:]))
    sigs = list(seen)
    for k in range(0, len(sigs), 1000): TERMS[f"signatures{k // 1000}"] = ([], [], sigs[k:k + 1000], ["x"], 1, 1)
    b = build("hfull"); d = chk.path("scratch"); os.makedirs(d)
    for name, (u, bi, h, l, quick, deep, *arrow) in TERMS.items():
        ends = what == "fix" and not name.startswith("signatures")
        cfg = f"""SPECIFICATION {'Fair' if ends else 'Spec'}
CONSTANTS
  U = {setof(u)}
  B = {setof(bi)}
  H = {setof(h, term)}
  L = {setof(l, leaf)}
  Depth = {deep if chk.thorough else quick}
  Arrow = {q(arrow[0] if arrow else '<-')}
INVARIANTS StaysCode MeaningKept Emit
{'PROPERTY Ends' if ends else ''}
CHECK_DEADLOCK FALSE
"""
        p = emit_with(chk, "RewriteMC", cfg, name)
        seen = {}
        for r in read_nd(p):
            x = seen.setdefault(json.dumps(r["o"]), dict(arrow=r["arrow"], o=r["o"], v=[], r=[]))
            if r["first"]: x["v"] = r["v"]
            if [r["n"], r["end"]] not in x["r"]: x["r"].append([r["n"], r["end"]])
        write_nd(p, seen.values())
        replay(chk, b, ["replay-terms", p, what, d], name)
    rec = chk.path("rec.nd")
    record(chk, b, ["record-terms", chk.seed, 4000 if not chk.thorough else 40000, rec, what, d], rec, "RewriteTrace", "recorded expressions", consts='CONSTANT Arrow = "<-"\n',
           describe=lambda r: f"{r['text']!r}" + (f" became {r['to']!r}" if what == "fix" else f": {json.dumps(r['v'])}"))
def A03(chk): rewriting(chk, "report")
def F02(chk): rewriting(chk, "fix")
