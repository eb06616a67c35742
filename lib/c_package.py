"""A02: analyses of whole packages (Package)."""
from vlib import *
from c_core import TRACE
from c_full import jarl, emit_with, q, setof
from concurrent.futures import ThreadPoolExecutor

RULE = dict(duplicated_function_definition="dup", unused_function="unused")
LONG = {v: k for k, v in RULE.items()}
def text(n): return ".".join(n)
def rx(n): return text(n).replace(".", "\\.")

# ---------------------------------------------------------------- source text
def line(rng, place, it):
    n = text(it["n"]); k = it["k"]
    if k == "macro": return rng.choice([f"#define X {n}", f"SEXP {n}(SEXP x) {{", f"#  define {n}(x) x", f'{{"C_x", (DL_FUNC) &{n}, 1}},', f"/* {n} */"])
    if k == "def": return rng.choice([f"{n} <- function(x) x", f"{n} = function(x, y = 1) x + y", f"{n} <- \\(x) x", f"{n}<-function (x) {{ x }}", f"{n}  <-  function(x) x # y", f'{n} <- function(x) "é"', f"{n} <- function() NULL;"])
    if k == "use": return rng.choice([f"{n}(1)", f"x <- sapply(y, {n})", f'do.call("{n}", list())', f"x <- pkg:::{n}", f"#' @seealso [{n}()]", f"  x <- {n}", f"{n} <- 1", f"{n} <- functions(x)", f"y[[1]] <- function(x) {n}(x)", f"x # {n}",
                                      f"é <- '{n}'", f"if (x) {n} else y", f"x <- y |> {n}()", f"x[{n}]", f"x${n}", f"-{n}", f"x=={n}", f"`{n}`(1)", f"  #' {n}"])
    if k == "inner": return rng.choice([f"local({{ {n} <- function(x) x }})", f"  {n} <- function(x) x", f"y$z <- function() {{ {n} = function() 1 }}", f"x <- {n} <- function() 1", f"if (x) {n} <- \\(x) x", f"\t{n} <- function() 1"])
    if k == "comment": return rng.choice([f"# {n}(1)", f"  # {n}", f"#{n} <- function() 1", f"## {n} #' {n}", f"#| {n}"])
    if k == "multi": return "any(\n  is.na(x)\n)"
    return rng.choice(["", "x <- 1", "y(x)"])
def source(rng, f):
    out = []
    for it in f["items"]:
        for r in it["ign"]: out.append(f"# jarl-ignore {LONG[r]}: why")
        out.append(line(rng, f["place"], it))
    nl = "\r\n" if rng.random() < .15 else "\n"
    # the columns below a leading line break: O01
    if out and not out[0]: out[0] = "y"
    s = "\n".join(out) + ("\n" if rng.random() < .8 or not out else "")
    return s.replace("\n", nl)
def arg(rng, n): return rng.choice([text(n), text(n), f'"{text(n)}"', f"'{text(n)}'", f"`{text(n)}`"])
def pattern(rng, d):
    p = dict(all=".", visible=rng.choice(["^[^\\.]", "^[[:alpha:]]+", "^[^.]", "^\\w", "^[[:alnum:]_]", "^[[:alpha:]]([[:alnum:]_.]*)$", "^[\\w]+[.\\w]*$"]), exactly=lambda: f"^{rx(d['n'])}$", family=lambda: f"^{rx(d['n'])}\\.")[d["d"]]
    p = p() if callable(p) else p
    return rng.choice(['"', "'"]) + "%s" + "" , p
def namespace(rng, dirs):
    """NAMESPACE text: calls with arguments, laid out in different ways"""
    calls = []
    for d in dirs:
        k = d["d"]
        if k in ("all", "visible", "exactly", "family"):
            p = pattern(rng, d)[1].replace("\\", "\\\\"); qu = rng.choice("\"'")
            c = ("exportPattern", [qu + p + qu])
        elif k == "s3": c = ("S3method", [rng.choice(["", "", "base::"]) + text(d["n"]) if rng.random() < .7 else f'"{text(d["n"])}"', arg(rng, d["c"])])
        elif k == "s3fun": c = ("S3method", [arg(rng, d["n"]), arg(rng, d["c"]), arg(rng, d["f"])])
        elif k == "comment": calls.append(("#", f"export({text(d['n'])})")); continue
        elif k == "import": c = ("importFrom", ["pkg", arg(rng, d["n"])])
        elif k == "dynlib": c = ("useDynLib", [arg(rng, d["n"]), ".registration = TRUE"])
        else: c = (dict(export="export", methods="exportMethods", classes="exportClasses")[k], [arg(rng, d["n"])])
        if calls and calls[-1][0] == c[0] and c[0].startswith("export") and rng.random() < .5: calls[-1] = (c[0], calls[-1][1] + c[1])
        else: calls.append(c)
    out = ""
    sp = lambda: rng.choice(["", "", "", " ", "\n  ", "\n", " # a, (comment\n  ", "\t"])
    for name, args in calls:
        if name == "#": out += rng.choice(["# ", "  #", "#' "]) + args + "\n"; continue
        c = name + rng.choice(["", "", " "]) + "(" + sp() + ("," + "%s").join(args).replace("%s", rng.choice(["", " ", "\n  "])) + rng.choice(["", "", sp()]) + ")"
        out += rng.choice(["", "", "", "", 'if (getRversion() >= "4.0.0") ', 'if (.Platform$OS.type == "windows") {\n  ', "  "]) 
        opened = out.endswith("{\n  ")
        out += c + ("\n}" if opened else "") + rng.choice(["\n", "\n", "\n", "\r\n", " # export(y)\n", ";", " ; "])
    return out + rng.choice(["", "\n", "# Generated by roxygen2: do not edit by hand\n"])

# ---------------------------------------------------------------- trees
NEST = ["tests/p", "inst/tests/p", "inst/tinytest/p", "src/p", "tests/src/R/p", "R/p", "data/p"]
TOP = ["pkg", "src/pkg", "tests/pkg", "inst/tests/pkg", "R", "é/pkg", "tests", "a b/pkg"]
STEMS = ["A", "B.b", "Z", "a", "a-b", "aa", "b", "utils", "zzz", "é", "ü_1"]
def where(rng, place, used):
    """a path in a package for a file of this place"""
    while True:
        s = rng.choice(STEMS); e = rng.choice([".R", ".R", ".R", ".r"])
        p = dict(R=lambda: f"R/{s}{e}", sub=lambda: f"R/{rng.choice(['sub', 'R', 'tests', 'unix/x'])}/{s}{e}", tests=lambda: f"tests/{rng.choice(['', 'testthat/', 'R/', 'inst/tinytest/', 'src/'])}{s}{e}",
                 tinytest=lambda: f"inst/tinytest/{rng.choice(['', 'tests/', 'sub/'])}{s}{e}", insttests=lambda: f"inst/tests/{rng.choice(['', 'tinytest/', 'R/'])}{s}{e}",
                 src=lambda: f"src/{rng.choice(['', 'lib/', 'tests/'])}{s}{rng.choice(['.c', '.cpp', '.h', '.hpp', '.cc', '.hh'])}",
                 **{"else": lambda: rng.choice([f"{s}{e}", f"data-raw/{s}{e}", f"inst/{s}{e}", f"inst/src/tests/{s}{e}", f"src/{s}{e}", f"vignettes/R/{s}{e}"])})[place]()
        if p.lower() not in used: used.add(p.lower()); return p
def order(p): return [x.encode() for x in p.split("/")]
def build_tree(rng, w, d, roots, paths):
    """write the tree; roots[p], paths[f] are relative to d"""
    for p, r in roots.items():
        os.makedirs(os.path.join(d, r), exist_ok=True)
        with open(os.path.join(d, r, "DESCRIPTION"), "w") as f: f.write(f"Package: p{p}\nVersion: 1.0\n")
        if w["spaces"][p - 1]["there"]:
            with open(os.path.join(d, r, "NAMESPACE"), "w", newline="") as f: f.write(namespace(rng, w["spaces"][p - 1]["dirs"]))
    for f, p in zip(w["files"], paths):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        with open(os.path.join(d, p), "w", newline="") as h: h.write(source(rng, f))
HELP = re.compile(r"(?:Other definition|Defined) at (.*):(\d+):(\d+)(?: but never called(?: in (.*))?)?")
def reports(r, index, names):
    """the reports of a run: of which files, of which names, pointing where (-1: nowhere known)"""
    got = []
    for x in json.loads(r.stdout)["diagnostics"]:
        m = x["message"]
        if m["name"] not in RULE: continue
        h = HELP.fullmatch(m["suggestion"] or ""); b = re.match(r"`(.*)` is defined", m["body"]); n = b and b[1]
        f = index.get(x["filename"].replace("\\", "/"), -1)
        of = index.get(h[1].replace("\\", "/"), -1) if h else -1
        ok = h and h[3] == "1" and x["location"]["column"] == 0 and x["range"][1] - x["range"][0] == len((n or "").encode())
        got.append(dict(r=RULE[m["name"]], f=f, l=x["location"]["row"] if ok else -1, n=n.split(".") if n else [], of=of, ol=int(h[2]) if h else -1, dir=(h and h[4]) or ""))
    return got

def small(chk, cli, base, t):
    """every small tree, many of them in one run"""
    def it(k, n): return f'[k |-> "{k}", n |-> <<{", ".join(map(q, n))}>>, ign |-> <<>>]'
    def pl(p, place, rank, on=True): return f'[pkg |-> {p}, place |-> "{place}", rank |-> {rank}, on |-> {str(on).upper()}]'
    sp = lambda *ds, there=True: f'[there |-> {str(there).upper()}, dirs |-> <<{", ".join(ds)}>>]'
    dr = lambda d, n, c=(), f=(): f'[d |-> "{d}", n |-> <<{", ".join(map(q, n))}>>, c |-> <<{", ".join(map(q, c))}>>, f |-> <<{", ".join(map(q, f))}>>]'
    pool = [pl(1, "R", 1), pl(1, "R", 2), pl(1, "R", 3, False), pl(1, "sub", 4), pl(1, "tests", 5), pl(1, "tinytest", 6), pl(1, "src", 7), pl(1, "else", 8), pl(2, "R", 9), pl(2, "tests", 10)]
    A = ["a"]; AB = ["a", "b"]
    lines = [it("def", A), it("use", A), it("def", AB), it("comment", A), it("macro", A)]
    spaces = [sp(), sp(dr("export", A))]
    cfgs = [(2, 2, lines, spaces + [sp(dr("s3", A, ["b"])), sp(there=False)], "{{}}"), (3, 1, lines, spaces, "{{}}")]
    if t: cfgs = [(2, 2, lines + [it("inner", A), it("use", AB)], spaces + [sp(dr("s3", A, ["b"])), sp(dr("s3fun", A, ["c"], AB)), sp(dr("family", A)), sp(there=False)], '{{}, {<<"a", "b">>}}'),
                  (3, 1, lines + [it("inner", A)], spaces + [sp(dr("visible", A))], "{{}}"), (3, 2, lines[:2] + lines[3:], spaces, "{{}}")]
    for j, (n, m, ls, ss, sk) in enumerate(cfgs):
        p = emit_with(chk, "PackageMC", f"""SPECIFICATION Spec
CONSTANTS
  Pool = <<{", ".join(pool)}>>
  NFiles = {n}
  MaxItems = {m}
  Lines = <<{", ".join(ls)}>>
  Spaces = {{{", ".join(ss)}}}
  Skips = {sk}
  Emits = TRUE
INVARIANTS Exact Sound Local MoreUse Outside Emit
CHECK_DEADLOCK FALSE
""", f"trees-{j}")
        by = {}
        for v in read_nd(p): by.setdefault(json.dumps(v["skip"]), []).append(v)
        rng = random.Random(chk.seed + j); jobs = []
        for vs in by.values():
            rng.shuffle(vs)
            if not t: vs = vs[:6000]
            jobs += [(vs[k:k + 60], rng.randint(0, 2**40)) for k in range(0, len(vs), 60)]
        def one(job):
            vs, seed = job; rng = random.Random(seed); d = tempfile.mkdtemp(dir=base)
            index = {}; args = []
            for k, v in enumerate(vs):
                top = f"w{k}/" + rng.choice(["pkg", "tests", "src/R"]); roots = {1: top, 2: rng.choice([top + "/tests/q", top + "/src/q", f"w{k}/q"])}
                used = set(); names = sorted(rng.sample([x + ".R" for x in STEMS], len(v["files"])), key=str.encode); paths = []
                for x, f in enumerate(v["files"]):
                    used |= {"r/" + names[x].lower()}
                    paths.append(roots[f["pkg"]] + "/" + ("R/" + names[x] if f["place"] == "R" else where(rng, f["place"], used)))
                build_tree(rng, v, os.path.join(d), roots, paths)
                for x, p in enumerate(paths): index[p] = (k, x + 1)
                args += [p for f, p in zip(v["files"], paths) if f["on"] and f["place"] != "src"]
            write_toml(d, vs[0]["skip"], [])
            rng.shuffle(args)
            r = jarl(cli, ["check", *args, "--select", ",".join(RULE), "--output-format", "json"], d, env={"RAYON_NUM_THREADS": str(rng.choice([1, 3, 8]))})
            try: got = reports(r, {p: p for p in index}, None)
            except (ValueError, KeyError): raise Misbehaved(f"no report: {r.stdout[-300:]} {r.stderr[-300:]}")
            each = {k: [] for k in range(len(vs))}
            for g in got:
                k, f = index.get(g["f"], (None, -1))
                if k is None: chk.violation(f"a report on a file that was not there: {g}", dict(got=g, dir=d)); continue
                of = index.get(g["of"], (None, -1)); each[k].append(dict(g, f=f, of=of[1] if of[0] == k else -1))
            for k, v in enumerate(vs):
                key = lambda s: sorted(json.dumps(x, sort_keys=True) for x in s)
                if key(each[k]) != key(v["want"]):
                    src = {p: open(os.path.join(d, p), newline="").read() for p, (kk, _) in index.items() if kk == k}
                    chk.violation(f"files {[(f['pkg'], f['place'], [(i['k'], text(i['n'])) for i in f['items']]) for f in v['files']]}, NAMESPACE {v['spaces'][0]}: reported {each[k]}; expected {v['want']}", dict(case=v, sources=src))
                else: chk.validated += 1
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))

def write_toml(d, skip, exclude):
    s = ""
    if exclude: s += "[lint]\nexclude = " + json.dumps(exclude, ensure_ascii=False) + "\n"
    if skip: s += "[lint.unused_function]\nskipped-functions = " + json.dumps([f"^{rx(n)}$" for n in skip], ensure_ascii=False) + "\n"
    if s:
        with open(os.path.join(d, "jarl.toml"), "w") as f: f.write(s)

NAMES = [["a"], ["b"], ["a", "b"], ["b", "a", "c"], ["café"], ["foo_1"], ["foo"], ["foo", "bar"], ["", "a"], ["", "onLoad"], ["on_load"], ["", "onAttach"], ["", "First", "lib"], ["print", "foo"], ["print"], ["été", "a"], ["f2"], ["A"], ["sort_by", "data", "table"], ["sort_by", "data"], ["sort_by"], ["", "Last", "lib"], ["", "onUnload"], ["", "onDetach"]]
def world(rng):
    """a random tree: its files as the specification sees them, and where they are"""
    np = rng.choice([1, 1, 2, 2, 3]); roots = {}; 
    for p in range(1, np + 1):
        for _ in range(50):
            r = rng.choice(TOP) if not roots or rng.random() < .4 else roots[rng.randint(1, p - 1)] + "/" + rng.choice(NEST)
            if r not in roots.values() and not (r == "R" and roots): roots[p] = r; break
        else: return None
    pool = rng.sample(NAMES, rng.randint(2, 6)); files = []; paths = []; used = {p: set() for p in range(np + 1)}
    wt = [.3, .4, .5][rng.randint(0, 2)]
    for _ in range(rng.randint(2, 9)):
        p = rng.randint(1, np); place = rng.choice(["R"] * 5 + ["sub", "tests", "tests", "tinytest", "insttests", "src", "else"])
        if rng.random() < .05: p = 0; place = "else"; path = rng.choice(["loose/R/", "other/tests/", ""]) + where(rng, "R", used[0])[2:]
        else: path = roots[p] + "/" + where(rng, place, used[p])
        items = []
        for _ in range(rng.randint(1, 5)):
            k = "macro" if place == "src" else rng.choice(["def"] * 5 + ["use", "inner", "comment", "multi", "other"])
            if k == "use" and rng.random() > wt: k = "def"
            ign = sorted(rng.sample(["dup", "unused"], rng.randint(1, 2))) if k == "def" and rng.random() < .08 else []
            items.append(dict(k=k, n=rng.choice(pool), ign=ign))
        files.append(dict(pkg=p, place=place, rank=0, on=place != "src" and rng.random() < .9, tall=True, items=items)); paths.append(path)
    # a path belongs to the closest root above it: drop what landed in another package
    owner = lambda p: max([(len(r), k) for k, r in roots.items() if p.startswith(r + "/")], default=(0, 0))[1]
    keep = [k for k in range(len(files)) if owner(paths[k]) == files[k]["pkg"] and paths.count(paths[k]) == 1]
    files = [files[k] for k in keep]; paths = [paths[k] for k in keep]
    if len({p.lower() for p in paths}) < len(paths): return None
    for rank, k in enumerate(sorted(range(len(paths)), key=lambda k: order(paths[k]))): files[k]["rank"] = rank + 1
    # every package with something to judge has an R file the run was asked for
    for p in roots:
        mine = [f for f in files if f["pkg"] == p and f["place"] == "R"]
        if not any(f["on"] for f in mine):
            if mine: mine[0]["on"] = True
            else:
                for f in files:
                    if f["pkg"] == p: f["on"] = False
    if not any(f["on"] for f in files): return None
    def directive():
        k = rng.choice(["export"] * 5 + ["methods", "classes", "s3", "s3", "s3fun", "visible", "exactly", "family", "comment", "import", "dynlib"] + ["all"] * (rng.random() < .1))
        n = rng.choice(pool); c = ["x"]; f = ["x"]
        if k == "s3": n, c = (n[:1], n[1:]) if len(n) > 1 and n[0] else (n, ["x"])
        if k == "s3" and len(c) > 1 and rng.random() < .5: n, c = n + c[:1], c[1:]
        if k == "s3fun": n, c, f = rng.choice(NAMES[:3]), ["b"], n
        if k == "family": n = n[:1] if n[0] else n
        return dict(d=k, n=n, c=c, f=f)
    spaces = [dict(there=rng.random() < .93, dirs=[directive() for _ in range(rng.choice([0, 0, 1, 2, 4]))]) for _ in roots]
    return dict(files=files, spaces=spaces, skip=rng.sample(pool, 1) if rng.random() < .15 else [], sel=rng.choice([["dup", "unused"]] * 4 + [["dup"], ["unused"]])), roots, paths

def run_world(cli, base, seed):
    rng = random.Random(seed); x = None
    while x is None: x = world(rng)
    w, roots, paths = x
    d = tempfile.mkdtemp(dir=base); build_tree(rng, w, d, roots, paths)
    fs = w["files"]; on = [p for f, p in zip(fs, paths) if f["on"]]; off = [p for f, p in zip(fs, paths) if not f["on"] and f["place"] != "src"]
    cwd = d; rel = lambda p: p
    inside = roots[1]
    if all(p.startswith(inside + "/") for p in on) and rng.random() < .3: cwd = os.path.join(d, inside); rel = lambda p: os.path.relpath(p, inside)
    mode = rng.choice(["all", "files", "mixed"] if not off else ["files", "exclude", "mixed"] if all("/" in p for p in off) else ["files", "mixed"])
    if mode == "exclude": args = ["."]; write_toml(d, w["skip"], off); cwd = d; rel = lambda p: p
    else:
        write_toml(d, w["skip"], [])
        args = [rng.choice([rel(p), "./" + rel(p), os.path.join(d, p)]) if mode == "mixed" else rel(p) for p in on]
        rng.shuffle(args)
        if mode == "all": args = ["."]
        if mode == "mixed" and not off: args.append(rng.choice([".", cwd]))
    fix = rng.random() < .3; sel = [LONG[r] for r in w["sel"]] + (["any_is_na"] if fix or rng.random() < .3 else [])
    if fix:
        for f in fs: f["tall"] = not f["on"]
    r = jarl(cli, ["check", *args, "--select", ",".join(sel), "--output-format", "json"] + (["--fix", "--allow-no-vcs"] if fix else []), cwd, env={"RAYON_NUM_THREADS": str(rng.choice([1, 2, 8]))})
    src = {p: open(os.path.join(d, p), newline="").read() for p in paths}
    for k, s in enumerate(w["spaces"]):
        if s["there"]: src[roots[k + 1] + "/NAMESPACE"] = open(os.path.join(d, roots[k + 1], "NAMESPACE"), newline="").read()
    try: got = reports(r, {rel(p): k + 1 for k, p in enumerate(paths)}, None)
    except (ValueError, KeyError): raise Misbehaved(f"no report: {args} {r.stdout[-300:]} {r.stderr[:600]} {src}")
    shutil.rmtree(d, ignore_errors=True)
    return dict(w, got=got, how=dict(args=args, cwd=cwd[len(d):], sources=src, sel=sel, fix=fix, status=r.returncode, roots=roots))

def A02(chk):
    cli = build("jarl"); t = chk.thorough
    base = tempfile.mkdtemp(prefix="jarlpkg-")
    try:
        small(chk, cli, base, t)
        rng = random.Random(chk.seed + 99)
        seeds = [rng.randint(0, 2**40) for _ in range(30000 if t else 3000)]
        with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda s: run_world(cli, base, s), seeds))
        chk.sample({k: x for k, x in recs[0].items() if k != "how"})
        for k in range(0, len(recs), 6000):
            validate_records(chk, "PackageTrace", TRACE % "", recs[k:k + 6000], f"recorded runs {k}", describe=lambda r: f"missing {r.get('missing')}, too many {r.get('extra')}: {r['how']['args']} {'fixed' if r['how']['fix'] else ''} {json.dumps(r['how']['sources'], ensure_ascii=False)}, skipped {r['skip']}, rules {r['sel']}, asked for {[f['on'] for f in r['files']]}")
    finally:
        shutil.rmtree(base, ignore_errors=True)
