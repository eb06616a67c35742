"""L06, L07: the language server next to the command line (Editor, EditorText)."""
from vlib import *
import select as sel_
from c_core import TRACE
from c_full import jarl, emit_with, q, setof
from c_proj import tl, nm, pat, show_name, show_pat, disc_config
from c_server import wire
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote

ENCS = {"utf8": "utf-8", "utf16": "utf-16", "utf32": "utf-32"}
SAMPLE = dict(e2="é", e3="€", e4="🌍")
def uri(p, rng=None): return "file://" + quote(p, safe="/-_.~" if rng is None or rng.random() < .7 else "/-_.~!$&'()*+,;=:@")

class Editor:
    """one session with the real server over its standard input and output"""
    def __init__(self, cli, cwd, env, enc, rng=None):
        e = dict(os.environ); e.update(env)
        self.p = subprocess.Popen([cli, "server"], cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buf = b""; self.id = 0; self.rng = rng
        offer = {"utf8": ["utf-8"], "utf16": None, "utf32": ["utf-32"], "any": ["utf-32", "utf-16", "utf-8"]}[enc]
        r = self.ask("initialize", dict(processId=None, rootUri=None, capabilities=dict(general=dict(positionEncodings=offer) if offer else {})))
        got = r["result"]["capabilities"].get("positionEncoding", "utf-16")
        self.enc_ok = got in (offer or []) + ["utf-16"]; self.got = got   # utf-16 is always allowed
        self.enc = next((k for k, v in ENCS.items() if v == got), None)
        self.tell("initialized", {})
    def send(self, x): self.p.stdin.write(wire(dict(jsonrpc="2.0", **x))); self.p.stdin.flush()
    def tell(self, m, params): self.send(dict(method=m, params=params))
    def read(self, timeout=60):
        end = time.time() + timeout
        while True:
            h = self.buf.find(b"\r\n\r\n")
            if h >= 0:
                n = int(re.search(rb"Content-Length: (\d+)", self.buf[:h]).group(1))
                if len(self.buf) >= h + 4 + n:
                    x = json.loads(self.buf[h + 4:h + 4 + n]); self.buf = self.buf[h + 4 + n:]; return x
            if not sel_.select([self.p.stdout], [], [], max(0, end - time.time()))[0]: raise EOFError("no answer")
            b = os.read(self.p.stdout.fileno(), 1 << 16)
            if not b: raise EOFError("the server ended")
            self.buf += b
    def ask(self, m, params):
        self.id += 1; self.send(dict(id=self.id, method=m, params=params))
        while True:
            x = self.read()
            if x.get("id") == self.id and "method" not in x: return x
    def lint(self, path, text, version=1):
        """opens and saves a document; the diagnostics published for it"""
        u = uri(path, self.rng)
        self.tell("textDocument/didOpen", dict(textDocument=dict(uri=u, languageId="r", version=version, text=text)))
        self.tell("textDocument/didSave", dict(textDocument=dict(uri=u)))
        while True:
            x = self.read()
            if x.get("method") == "textDocument/publishDiagnostics": return x["params"]["diagnostics"]
    def actions(self, path, rng_, diags=()):
        return self.ask("textDocument/codeAction", dict(textDocument=dict(uri=uri(path)), range=rng_, context=dict(diagnostics=list(diags))))
    def close(self):
        try:
            self.ask("shutdown", None); self.tell("exit", None); self.p.stdin.close()
            return self.p.wait(20)
        except Exception:
            self.p.kill(); self.p.wait(); return -9
        finally: self.p.stdout.close()

# ---------------------------------------------------------------- projects
CODE = dict(any_is_na="any(is.na(x))", class_equals='if (class(x) == "foo") 1', list2df="do.call(cbind.data.frame, x)")
SELS = dict(default=[""], all=['select = ["ALL"]', 'extend-select = ["CORR"]'], named=['extend-select = ["unused_function"]'],
            na=['select = ["any_is_na"]'], notna=['ignore = ["any_is_na"]', 'extend-select = ["list2df"]\nignore = ["any_is_na"]'])
def item_lines(i, rng):
    rule = "unused_function" if i["r"] == "fun" else i["r"]
    l = [f"# jarl-ignore {rule}: reason"] if i["hush"] else []
    c = f'{i["n"]} <- function() 1' if i["r"] == "fun" else f'{i["n"]}()' if i["r"] == "use" else CODE[i["r"]]
    if i["pre"]: c = '"' + "".join(SAMPLE.get(k, "a") for k in i["pre"]) + '"; ' + c
    return l + [c]
def file_text(f, items, rng):
    body = [l for i in items for l in item_lines(i, rng)]
    nl = rng.choice(["\n", "\n", "\r\n"])
    if f["e"] in ("R", "r"): out = body
    elif f["e"] in ("Rmd", "rmd", "qmd"): out = [rng.choice(["text", "é text"]), "", "```{r}", *body, "```"]
    else: out = body
    return nl.join(out) + (nl if rng.random() < .8 or not out else "")
def editor_world(base, w, rng):
    """writes the directories and the files"""
    top = os.path.join(base, rng.choice(["top", "sub dir", "é%20x", "t#op"]))
    names = [None]; n = len(w["tree"])
    for d in range(1, n + 1):
        p = w["tree"][d - 1]
        names.append(os.path.join(names[p], show_name(w["dname"][d - 1])) if p else top)
        os.makedirs(names[d])
    fs = [None]; texts = [None]
    for f, its in zip(w["files"], w["items"]):
        p = os.path.join(names[f["d"]], show_name(f)); t = file_text(f, its, rng)
        with open(p, "w", newline="") as h: h.write(t)
        fs.append(p); texts.append(t)
    return names, fs, texts
def toml_tail(s, t, rng):
    l = rng.choice(SELS[s]); out = (l + "\n") if l else ""
    return out, (f"[lint.unused_function]\nthreshold-ignore = {t}\n" if t >= 0 else "")
def editor_config(base, names, w, rng):
    disc_config(names, w["cfg"], rng)
    for d in range(1, len(names)):
        for c in ("DESCRIPTION", "NAMESPACE"):
            p = os.path.join(names[d], c)
            if os.path.exists(p): os.remove(p)
        if d in w["pkg"]:
            v = w["ver"][d - 1]
            with open(os.path.join(names[d], "DESCRIPTION"), "w") as f: f.write(f"Package: p{d}\nVersion: 1.0\n" + (f"Depends: R (>= {v // 100}.{v % 100}.0)\n" if v else ""))
            with open(os.path.join(names[d], "NAMESPACE"), "w") as f: f.write("export(main)\n")
        for c in ("jarl.toml", ".jarl.toml"):
            p = os.path.join(names[d], c)
            if os.path.exists(p):
                a, b = toml_tail(w["sel"][d], w["thr"][d], rng)
                with open(p, "a") as f: f.write(a + b)
    u = os.path.join(base, "xdg", "jarl"); os.makedirs(u, exist_ok=True)
    p = os.path.join(u, "jarl.toml")
    if w["user"]:
        a, b = toml_tail(w["sel"][0], w["thr"][0], rng)
        with open(p, "w") as f: f.write("[lint]\n" + a + b)
    elif os.path.exists(p): os.remove(p)
NAME = lambda r: {"unused_function": "fun"}.get(r, r)
OURS = {"any_is_na", "class_equals", "list2df", "unused_function"}
def both_runs(cli, base, names, fs, texts, enc, rng):
    """the reports of the command line on the whole project, and what the editor publishes for each file"""
    env = dict(XDG_CONFIG_HOME=os.path.join(base, "xdg"), RAYON_NUM_THREADS=str(rng.choice([1, 4])))
    cwd = rng.choice([base] + names[1:])
    r = jarl(cli, ["check", os.path.relpath(names[1], cwd) if rng.random() < .5 else names[1], "--output-format", "json"], cwd, env=env)
    how = dict(cwd=cwd, encoding=enc, stdout=r.stdout[:1500], stderr=r.stderr[:1500], code=r.returncode)
    try:
        o = json.loads(r.stdout) if r.stdout.strip().startswith("{") else dict(diagnostics=[], errors=[])
        if r.returncode not in (0, 1) and not (r.returncode in (2, 255) and o.get("errors")): raise ValueError
    except ValueError: return None, None, f"the command line ended with {r.returncode}", how
    byf = {}
    for x in o["diagnostics"]: byf.setdefault(os.path.normpath(os.path.join(cwd, x["filename"])), []).append(x)
    errs = {os.path.normpath(os.path.join(cwd, x["file"])) for x in o.get("errors", []) if "file" in x}
    try: ed = Editor(cli, cwd, env, enc, rng)
    except EOFError as e: return None, None, f"the server did not start: {e}", how
    pub = {}
    try:
        if not ed.enc_ok: return None, None, f"asked for {enc}, got {ed.got}", how
        how["encoding"] = ed.enc
        order = [p for p in range(1, len(fs))]; rng.shuffle(order)
        for k in order: pub[k] = ed.lint(fs[k], texts[k])
    except EOFError as e: return None, None, f"the editor got no diagnostics: {e}", how
    finally:
        rc = ed.close()
    if rc != 0: return None, None, f"the server ended with {rc}", how
    return {k: byf.get(fs[k], []) for k in range(1, len(fs))}, pub, None, dict(how, errors=errs)
def published(d):
    r = d["range"]
    return d["data"]["rule_name"], r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"]

def as_text(w): return f"tree {w['tree']} {[show_name(x) for x in w['dname']]}, files {[(f['d'], show_name(f)) for f in w['files']]}, configurations {[dict(excl=[show_pat(p) for p in c['excl']], incl=[show_pat(p) for p in c['incl']], default=c['def'], select=w['sel'][k + 1], threshold=w['thr'][k + 1]) if c['on'] else None for k, c in enumerate(w['cfg'])]}, user level {w['sel'][0] if w['user'] else None}, packages {w['pkg']}"

def L07_worlds(chk, cli, base):
    t = chk.thorough
    F = lambda d, x: dict(d=d, **nm(x))
    I = lambda r, n="", hush=False, pre=(): dict(r=r, n=n, hush=hush, pre=list(pre))
    W = dict(tree=[0, 1, 2, 1, 2], dname=[nm("top"), nm("a"), nm("R"), nm("renv"), nm("b")],
             files=[F(1, "f.R"), F(3, "g.R"), F(3, "cpp11.R"), F(4, "f.R"), F(5, "f.Rmd"), F(3, "h.R")],
             items=[[I("any_is_na"), I("list2df", pre=["e3", "e4"])], [I("fun", "f01"), I("any_is_na", hush=True), I("fun", "f02", pre=["e2"]), I("list2df")], [I("any_is_na"), I("use", "f02"), I("fun", "f03")],
                    [I("any_is_na")], [I("class_equals", pre=["e4", "e2"]), I("any_is_na", hush=True), I("list2df")], [I("fun", "f04", hush=True), I("fun", "f05"), I("class_equals")]])
    S0 = ['[s |-> "all", t |-> 1]', '[s |-> "named", t |-> 0]', '[s |-> "notna", t |-> -1]']
    runs = [([1, 2], ["f.R", "b/", "/R/g.R"], 1, S0[:2], "{{2}}", "{0, 402}", "{FALSE}"),
            ([2, 3], ["R/*.R", "/g.R"], 1, S0[:1] + ['[s |-> "na", t |-> -1]'], "{{}, {2}}", "{402}", "{TRUE, FALSE}"),
            ([1], ["**/f.*", "a/", "/a/R/"], 2, ['[s |-> "all", t |-> 2]', '[s |-> "all", t |-> -1]'], "{{2}, {1, 2}, {1}}", "{306, 402}", "{FALSE}")]
    if t: runs = [([1, 2], ["f.R", "b/", "/R/g.R", "*.R"], 2, S0 + ['[s |-> "all", t |-> 2]'], "{{2}, {1}}", "{0, 402}", "{FALSE, TRUE}"),
                  ([2, 3], ["R/*.R", "/g.R", "R"], 2, S0, "{{}, {2}, {1, 2}}", "{306, 402}", "{TRUE, FALSE}"),
                  ([1, 4, 5], ["**/f.*", "a/", "/a/R/", "f.Rmd"], 2, S0[:2] + ['[s |-> "all", t |-> -1]'], "{{2}, {1, 2}, {1}}", "{306, 402}", "{FALSE, TRUE}")]
    def one(job):
        k, vs, seed = job; rng = random.Random(seed)
        d = os.path.join(base, f"w{k}"); os.makedirs(d)
        names, fs, texts = editor_world(d, W, rng)
        for v in vs:
            v = dict(W, **v); editor_config(d, names, v, rng)
            c, p, bad, how = both_runs(cli, d, names, fs, texts, rng.choice([*ENCS, "any"]), rng); enc = how["encoding"]
            if bad: chk.violation(f"{as_text(v)}: {bad}", dict(case=v, **how)); continue
            for f in range(1, len(fs)):
                w = v["want"][f - 1]
                if w["apart"]: continue
                keep = lambda r: r in OURS and not (w["pooled"] and r == "unused_function")
                want = sorted((r["r"], r["l"], r["s"], r["l"], r["e"]) for r in w["reports"][enc] if not (w["pooled"] and r["r"] == "fun"))
                got = sorted((NAME(x[0]), *x[1:]) for x in map(published, p[f]) if keep(x[0]))
                cl = sorted((NAME(x["message"]["name"]), x["location"]["row"] - 1) for x in c[f] if keep(x["message"]["name"]))
                rel = os.path.relpath(fs[f], names[1])
                if got != want: chk.violation(f"{as_text(v)}: the editor ({enc}) shows {got} in {rel}, expected {want}", dict(case=v, file=rel, text=texts[f], command_line=cl, **how))
                elif cl != [x[:2] for x in want]: chk.violation(f"{as_text(v)}: the command line reports {cl} in {rel}, expected {want}", dict(case=v, file=rel, text=texts[f], **how))
                else: chk.validated += 1
        shutil.rmtree(d, ignore_errors=True)
    for j, (cd, ps, mp, ss, pk, vers, users) in enumerate(runs):
        cfg = f"""SPECIFICATION Spec
CONSTANTS
  Tree = {tl(W["tree"])}
  DNames = {tl(W["dname"])}
  Files = {tl(W["files"])}
  Items = {tl(W["items"])}
  CfgDirs = {tl(set(cd))}
  Pats = {"{" + ", ".join(tl(pat(x)) for x in ps) + "}"}
  MaxPats = {mp}
  Sels = {"{" + ", ".join(['[s |-> "default", t |-> -1]'] + ss) + "}"}
  PkgSets = {pk}
  Vers = {vers}
  Users = {users}
INVARIANTS Same Emit
CHECK_DEADLOCK FALSE
"""
        p = emit_with(chk, "EditorMC", cfg, f"projects-{j}")
        vs = read_nd(p); rng = random.Random(chk.seed + j)
        chk.note("projects", len(vs))
        if not t and len(vs) > 400: vs = rng.sample(vs, 400)
        if t and len(vs) > 6000: vs = rng.sample(vs, 6000)
        jobs = [(f"{j}-{k}", vs[k::16], rng.randint(0, 2**40)) for k in range(16)]
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
def L07_random(chk, cli, base, n):
    """random projects: records for EditorTrace"""
    rng = random.Random(chk.seed + 3); recs = []; jobs = []
    DN = ["a", "b", "R", "R", "renv", ".h", "tests"]; FN = ["f.R", "g.R", "h.r", "f.Rmd", "g.qmd", "cpp11.R", "import-standalone-a.R", "t.txt"]
    PT = ["f.R", "a/", "b", "/f.R", "/a/", "R/*.R", "a/R/", "**/R/*.R", "**/g.*", "*.R", "*.Rmd", "R/", "R/**", "/R/g.R", "*"]
    for k in range(n):
        m = rng.randint(1, 6); tree = [0] + [rng.randint(max(1, d - 3), d) for d in range(1, m)]
        used = set(); dn = [nm("top")]; files = []; items = []
        for d in range(2, m + 1):
            x = rng.choice([x for x in DN if (tree[d - 1], x) not in used] or [f"d{d}"]); used.add((tree[d - 1], x)); dn.append(nm(x))
        for d in range(1, m + 1):
            for x in rng.sample(FN, rng.choice([0, 1, 2, 3])): files.append(dict(d=d, **nm(x)))
        if not files: continue
        nf = 0; names = []
        for f in files:
            its = []
            for _ in range(rng.randint(0, 4)):
                r = rng.choice(["any_is_na", "class_equals", "list2df", "fun", "fun", "use"])
                if r == "fun": nf += 1; names.append(f"f{nf:02}")
                hush = r != "use" and rng.random() < .2
                its.append(dict(r=r, n=names[-1] if r == "fun" else rng.choice(names + ["main"]) if r == "use" else "", hush=hush,
                                pre=[] if hush or r == "fun" or rng.random() < .6 else [rng.choice(["a", "e2", "e3", "e4"]) for _ in range(rng.randint(1, 4))]))
            items.append(its)
        ps = lambda q: [pat(x) for x in rng.sample(PT, rng.randint(0, q))]
        cfg = [dict(on=rng.random() < .4, excl=ps(2), incl=ps(2) if rng.random() < .3 else [], **{"def": rng.random() < .7}) for _ in tree]
        user = rng.random() < .3
        on = [user] + [c["on"] for c in cfg]
        w = dict(tree=tree, dname=dn, files=files, items=items, cfg=cfg, user=user, pkg=[d for d in range(1, m + 1) if rng.random() < .45],
                 sel=[rng.choice(["default", "all", "all", "all", "named", "na", "notna"]) if o else "default" for o in on], thr=[rng.choice([-1, 0, 1, 2, 3]) if o else -1 for o in on])
        w["ver"] = [rng.choice([0, 306, 402, 400]) if d in w["pkg"] else 0 for d in range(1, m + 1)]
        jobs.append((k, w, rng.randint(0, 2**40)))
    def one(job):
        k, w, seed = job; rng = random.Random(seed)
        d = os.path.join(base, f"r{k}"); os.makedirs(d)
        names, fs, texts = editor_world(d, w, rng); editor_config(d, names, w, rng)
        c, p, bad, how = both_runs(cli, d, names, fs, texts, rng.choice([*ENCS, "any"]), rng)
        shutil.rmtree(d, ignore_errors=True)
        if bad: chk.violation(f"{as_text(w)}: {bad}", dict(case=w, **how)); return
        ed = [[dict(r=NAME(x[0]), l=x[1], s=x[2], e=x[4]) if x[1] == x[3] else dict(r="over lines", l=0, s=0, e=0) for x in map(published, p[f]) if x[0] in OURS] for f in range(1, len(fs))]
        cl = [[dict(r=NAME(x["message"]["name"]), l=x["location"]["row"] - 1) for x in c[f] if x["message"]["name"] in OURS] for f in range(1, len(fs))]
        if any(len({json.dumps(y) for y in x}) != len(x) for x in ed): chk.violation(f"{as_text(w)}: a problem was published twice", dict(case=w, published=ed, **how)); return
        recs.append(dict(w, enc=how["encoding"], ed=ed, cli=cl, how={k: v for k, v in how.items() if k != "errors"}, texts=texts[1:]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    chk.sample({k: v for k, v in recs[0].items() if k not in ("how", "texts")})
    validate_records(chk, "EditorTrace", TRACE % "", recs, "projects", describe=lambda r: f"{as_text(r)}, files {r['texts']}: the editor ({r['enc']}) shows {r['ed']}, the command line reports {r['cli']}")

BITS = ["any(is.na(x))", "x == NA", 'if (class(x) == "foo") 1', "length(x == 1)", "if (x == TRUE) 1", "sapply(x, length)", "for (i in 1:length(x)) 1", "while (TRUE) f()", "y <- .1", "all(!x)",
        "f <- function() {\n  return(1)\n  2\n}", "f <- function() 1", "f <- function() 2", "g <- function(x) {\n  any(\n    is.na(x)\n  )\n}", "x = 1", "1 -> x", "library(a)", "T & F", 'download.file("a", "b")', "list(a = 1, a = 2)",
        '"é"; any(is.na(x))', '"🌍🌍" ; x == NA # é', '"€é"; y <- .1; z = 3', "é <- any(duplicated(x))", "any(is.na('🌍'))", "# jarl-ignore any_is_na: é\nany(is.na(x))", "# jarl-ignore-start any_is_na: é\nany(is.na(x))\n# jarl-ignore-end any_is_na", "# jarl-ignore equals_na: <reason>\nany(is.na(x))",
        "# jarl-ignore\nany(is.na(x))", "# jarl-ignore any_is_na\n1", "# jarl-ignore nope: a\n1", "x <- '\n🌍\n'; any(is.na(x))", "{\n\tany(is.na(x))\n}", "r\"(\né)\"; x == NULL", "if (a) {\n  if (b) {\n    1\n  }\n}", "browser()", "", "é(x == NaN)", "main()"]
BROKEN = ["f(", "x <- ", ")", "{", "'é", "if else", "x y"]
def any_text(rng, rmd):
    nl = rng.choice(["\n", "\n", "\r\n"])
    def code(n): return [l for b in rng.sample(BITS, n) for l in b.split("\n")]
    if rmd:
        out = ["---", "title: é", "---"] if rng.random() < .4 else []
        for _ in range(rng.randint(0, 3)):
            ind = rng.choice(["", "", "  ", "\t"])
            out += [rng.choice(["texte 🌍 any(is.na(x))", "", "> ~~~"]), ind + rng.choice(["```{r}", "```{r}", "```{r, a=1}", "```{python}", "```r"])] + [ind + l if l else l for l in (["#| jarl-ignore-chunk any_is_na: é"] if rng.random() < .2 else []) + code(rng.randint(0, 4))] + [ind + "```"]
            if rng.random() < .08: out.insert(-1, rng.choice(BROKEN))
    else:
        out = (["# jarl-ignore-file any_is_na: é"] if rng.random() < .1 else []) + code(rng.randint(0, 7))
        if rng.random() < .15: out.insert(rng.randint(0, len(out)), rng.choice(BROKEN))
    return nl.join(out) + (nl if rng.random() < .8 else "")
def classes(t): return ["nl" if c == "\n" else "cr" if c == "\r" else {1: "a", 2: "e2", 3: "e3", 4: "e4"}[len(c.encode())] for c in t]
def L07_texts(chk, cli, base, n):
    """files with any content, in packages and outside: records for EditorText"""
    rng = random.Random(chk.seed + 4); recs = []
    def one(job):
        k, seed = job; rng = random.Random(seed)
        d = os.path.join(base, f"t{k}"); top = os.path.join(d, rng.choice(["p", "p q", "é"])); os.makedirs(top)
        if rng.random() < .7:
            with open(os.path.join(top, "DESCRIPTION"), "w") as f: f.write("Package: p\nVersion: 1.0\n" + rng.choice(["", "Depends: R (>= 3.6)\n", "Imports: R6\nDepends:\n    R (>= 4.5.0), stats\n"]))
            if rng.random() < .8:
                with open(os.path.join(top, "NAMESPACE"), "w") as f: f.write(rng.choice(["export(main)\n", "export(f)\n", "exportPattern(\"^[a-z]\")\n"]))
        if rng.random() < .8:
            with open(os.path.join(top, "jarl.toml"), "w") as f: f.write("[lint]\n" + rng.choice(['select = ["ALL"]\n', 'select = ["ALL"]\n', 'extend-select = ["unused_function"]\n', 'ignore = ["any_is_na"]\n', ""]) + rng.choice(["", "[lint.unused_function]\nthreshold-ignore = 2\n", '[lint.unused_function]\nskipped-functions = ["^f"]\n', '[lint.assignment]\noperator = "="\n', '[lint.undesirable_function]\nfunctions = ["main"]\n']))
        dirs = rng.sample(["", "R", "R", "tests/testthat", "inst/tinytest", "src", "vignettes", "R/sub"], rng.randint(1, 4))
        fs = [None]; texts = [None]
        for x in dict.fromkeys(dirs):
            os.makedirs(os.path.join(top, x), exist_ok=True)
            for _ in range(rng.randint(1, 3)):
                e = rng.choice(["R", "R", "R", "r", "Rmd", "qmd"]); p = os.path.join(top, x, rng.choice(["a", "b", "é", "a b", "c%41"]) + "." + e)
                if p in fs: continue
                t = any_text(rng, e in ("Rmd", "qmd"))
                if e in ("R", "r") and rng.random() < .4: t += "".join(f"{v} <- function() {rng.choice(['1', 'h()', 'k()'])}\n" for v in rng.sample(["f", "h", "k", "print.f", "é", ".onLoad"], 3))
                fs.append(p); texts.append(t)
                with open(p, "w", newline="") as h: h.write(t)
        c, p, bad, how = both_runs(cli, d, [None, top], fs, texts, rng.choice([*ENCS, "any"]), rng)
        shutil.rmtree(d, ignore_errors=True)
        if bad: chk.violation(f"{bad}", dict(texts=dict(zip([os.path.relpath(x, d) for x in fs[1:]], texts[1:])), **{k: v for k, v in how.items() if k != "errors"})); return
        for f in range(1, len(fs)):
            mm = lambda m: m["body"] + (" " + m["suggestion"] if m.get("suggestion") else "")
            recs.append(dict(enc=how["encoding"], text=classes(texts[f]), parses=fs[f] not in how["errors"], file=os.path.relpath(fs[f], d), source=texts[f], others={os.path.relpath(x, d): y for x, y in zip(fs[1:], texts[1:])},
                             cli=[dict(n=x["message"]["name"], m=mm(x["message"]), s=x["range"][0], e=x["range"][1]) for x in c[f]],
                             ed=[dict(n=x["data"]["rule_name"], m=x["message"], s=dict(line=x["range"]["start"]["line"], ch=x["range"]["start"]["character"]), e=dict(line=x["range"]["end"]["line"], ch=x["range"]["end"]["character"])) for x in p[f]]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, [(k, rng.randint(0, 2**40)) for k in range(n)]))
    chk.sample({k: v for k, v in recs[0].items() if k not in ("others", "text")})
    chk.note("files_with_any_content", len(recs)); chk.note("of_them_reported", sum(bool(r["cli"]) for r in recs)); chk.note("of_them_broken", sum(not r["parses"] for r in recs))
    validate_records(chk, "EditorText", "SPECIFICATION Spec\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n", recs, "texts",
                     describe=lambda r: f"{r['file']} ({r['enc']}) {r['source']!r} among {r['others']}: the editor shows {[(x['n'], x['s'], x['e']) for x in r['ed']]}, the command line reports {[(x['n'], x['s'], x['e']) for x in r['cli']] if r['parses'] else 'that it does not parse'}")
def L07(chk):
    cli = build("jarl"); base = tempfile.mkdtemp(prefix="jarled-")
    try:
        L07_worlds(chk, cli, base)
        L07_random(chk, cli, base, 4000 if chk.thorough else 300)
        L07_texts(chk, cli, base, 4000 if chk.thorough else 250)
    finally: shutil.rmtree(base, ignore_errors=True)
