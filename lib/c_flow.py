"""A01: unreachable code (Flow)."""
from vlib import *
from c_core import TRACE
from c_full import jarl, emit_with, q, setof, term
from concurrent.futures import ThreadPoolExecutor

WHY = {"This code is unreachable because it appears after a return statement.": "ret", "This code is unreachable because it appears after a `stop()` statement (or equivalent).": "stop",
       "This code is unreachable because it appears after a break statement.": "brk", "This code is unreachable because it appears after a next statement.": "nxt",
       "This code is unreachable because the preceding if/else terminates in all branches.": "branch", "This code is in a branch that can never be executed.": "dead"}
PLAIN = ["x <- f(x)", "f(1)", "x", '"é"', "NULL", "x$stop()", "stop", "return", "my@abort(1)", "stop_if(x)", "pkg::f(x)", "`x y` <- 2", "x |> f()", "y <- if (x) 1 else 2", 'switch(x, a = stop("b"), 2)', "tryCatch(stop(1), error = identity)", "(x)", "x[[stop(1)]]",
         "-1", "x = {\n  1\n}", "f(a,\n  b)", 'warning("return()")', "return <- 1", "TRUE", "x <<- 1", "stop$x", "a$return(1)", "nonstop(1)", "abort$quit()", "~ stop(x)", "q"]
STOPS = ["stop", "abort", "cli_abort", ".Defunct", "q", "quit"]
class Src:
    """source text of a program with the place of every statement and branch"""
    def __init__(self, rng, stops, tidy=False): self.rng = rng; self.stops = stops; self.t = ""; self.n = 0; self.at = {}; self.tidy = tidy
    def put(self, s): self.t += s; self.n += len(s.encode())
    def cond(self, c):
        r = self.rng
        if c[0] == "T": return "TRUE"
        if c[0] == "F": return "FALSE"
        if c[0] == "par": return "(" + self.cond(c[1]) + ")"
        if c[0] in ("or", "and"): return "(" * (c[1][0] in ("or", "and")) + self.cond(c[1]) + ")" * (c[1][0] in ("or", "and")) + r.choice({"or": [" || ", " | ", "||"], "and": [" && ", " & ", "&&"]}[c[0]]) + "(" * (c[2][0] in ("or", "and")) + self.cond(c[2]) + ")" * (c[2][0] in ("or", "and"))
        return r.choice(["x", "x > 0", "isTRUE(x)", "x == TRUE", "T", "is.null(x)", "f(FALSE)", "NA", "1", "x[TRUE]", "x == FALSE", "!TRUE", "is.na(TRUE)", "(x || f(TRUE))"])
    def body(self, l, p, ind, bare):
        """a branch or body: braces, or a lone statement"""
        r = self.rng; a = self.n
        if bare and len(l) == 1 and (l[0]["k"] in ("s", "ret", "stop", "brk", "nxt") or bare == "else" and l[0]["k"] == "if") and r.random() < .5: self.stmt(l[0], p + (1,), ind, True)
        elif r.random() < .2 and not any(s["k"] == "fun" for s in l):
            self.put("{")
            for k, s in enumerate(l): self.put(" "); self.stmt(s, p + (k + 1,), ind + "  "); self.put(";" if k + 1 < len(l) or r.random() < .2 else "")
            self.put(" }")
        else:
            self.put("{\n"); self.seq(l, p, ind + "  "); self.put(ind + "}")
        self.at[p] = (a, self.n)
    def seq(self, l, p, ind):
        r = self.rng
        for k, s in enumerate(l):
            if r.random() < .06: self.put(ind + r.choice(["# é", "# return(1)", "", "#' @x"]) + "\n")
            self.put(ind); self.stmt(s, p + (k + 1,), ind)
            self.put(r.choice([" # stop()", ";", "  "]) if r.random() < .06 else ""); self.put("\n")
    def stmt(self, s, p, ind, bare=False):
        r = self.rng; a = self.n; k = s["k"]
        if k == "s": self.put(r.choice([x for x in PLAIN if not (bare and x[:3] == "x =")]).replace("\n", "\n" + ind))
        elif k == "ret": self.put(r.choice(["return(1)", "return()", "return(x)", "return(if (x) 1 else 2)", "return(\n" + ind + "  1\n" + ind + ")"]))
        elif k == "stop": self.put(r.choice(["", "", "", "rlang::", "p.k:::"]) + r.choice(self.stops) + r.choice(['("é")', "()", "(c(\n" + ind + '  "x", i = "y"))', " (1)", "(x, call = NULL)"]))
        elif k == "brk": self.put("break")
        elif k == "nxt": self.put("next")
        elif k == "blk": self.body(s["b"][0], p + (1,), ind, None)
        elif k == "loop":
            self.put(r.choice(["for (i in x) ", "while (x) ", "repeat ", "while (TRUE) ", "while (FALSE) ", "for (i in 1:10) ", "repeat\n" + ind])); self.body(s["b"][0], p + (1,), ind, "loop")
        elif k == "fun":
            h, t = r.choice([("f <- function(x) ", ""), ("function() ", ""), ("x$f <- \\(x) ", ""), ("sapply(x, function(i) ", ")"), ("f <- function(a = 1, b) ", ""), ('test_that("é", function() ', ")"), ("x <- list(a = function(y) ", ", b = 2)"), ("f(g(\\() ", "))")])
            self.put(h); self.body(s["b"][0], p + (1,), ind, "fun"); self.put(t)
        else:
            self.put(r.choice(["if (", "if(", "if  ("]) + self.cond(s["c"]) + ") "); self.body(s["b"][0], p + (1,), ind, "then")
            if len(s["b"]) == 2: self.put(" else "); self.body(s["b"][1], p + (2,), ind, "else")
        self.at[p] = (a, self.n)
def where(src, base, d, places):
    """a reported range as the specification has it"""
    return places.get((d["range"][0] - base, d["range"][1] - base))
def index(prog, src):
    """what ranges may be reported: branches, and pieces of sequences up to their end"""
    out = {}
    def go(l, p):
        for k in range(2, len(l) + 1):
            for e in range(k, len(l) + 1): out[(src.at[p + (k,)][0], src.at[p + (e,)][1])] = [dict(p=list(p), **{"from": k, "to": e})]
        for k, s in enumerate(l):
            for j, b in enumerate(s["b"]): go(b, p + (k + 1, j + 1))
    go(prog, ())
    def branches(l, p):
        for k, s in enumerate(l):
            for j, b in enumerate(s["b"]):
                q = p + (k + 1, j + 1)
                if s["k"] == "if": out.setdefault(src.at[q], []).append(dict(p=list(q), **{"from": 0, "to": 0}))
                branches(b, q)
    branches(prog, ())
    return out
def reports(diags, prog, src, base=0):
    ix = index(prog, src); got = []
    for d in diags:
        if d["message"]["name"] != "unreachable_code": continue
        why = WHY.get(d["message"]["body"], "?"); c = ix.get((d["range"][0] - base, d["range"][1] - base), [])
        c = [x for x in c if (x["to"] == 0) == (why == "dead")] or [dict(p=[-1], **{"from": d["range"][0] - base, "to": d["range"][1] - base})]
        got.append(dict(c[0], why=why))
    return got
def conf(rng, d):
    """which functions stop execution"""
    m = rng.randint(0, 5)
    own = ["halt", "my.stop", "die_é"]
    if m > 2: return STOPS
    with open(os.path.join(d, "jarl.toml"), "w") as f:
        f.write("[lint.unreachable_code]\n" + ("stopping-functions" if m == 0 else "extend-stopping-functions") + " = " + json.dumps(own, ensure_ascii=False) + "\n")
    return own if m == 0 else STOPS + own
def run_programs(cli, base, progs, seed, inside):
    """every program as a function of one file (inside) or as a chunk or file of its own; their reports"""
    rng = random.Random(seed); d = tempfile.mkdtemp(dir=base); stops = conf(rng, d); out = []; files = {}
    crlf = rng.random() < .1
    if inside or rng.random() < .7:
        rmd = not inside; text = ""; at = []
        for k, pr in enumerate(progs):
            s = Src(rng, stops)
            if inside:
                head = rng.choice([f"f{k} <- function(x) ", f"f{k} = \\(x, y = 1) ", f"x$f{k} <- function() "]); s.put(head); s.body(pr, (), "", None); s.put("\n")
            else: s.seq(pr, (), "")
            if rmd: text += rng.choice(["```{r}\n", "Text é\n\n```{r, echo=FALSE}\n", "```{r}\n#| label: x%d\n" % k])
            at.append((s, len(text.encode()), pr)); text += s.t + ("```\n\n" if rmd else rng.choice(["", "\n", "# é\n"]))
        name = "a.Rmd" if rmd else "a.R"; files[name] = (text, at)
    else:
        for k, pr in enumerate(progs):
            s = Src(rng, stops); s.seq(pr, (), ""); files[f"p{k}.R"] = (s.t, [(s, 0, pr)])
    for n, (t, _) in files.items():
        with open(os.path.join(d, n), "w", newline="") as f: f.write(t)
    r = jarl(cli, ["check", ".", "--select", "unreachable_code", "--output-format", "json"], d)
    try: j = json.loads(r.stdout)
    except ValueError: raise Misbehaved(f"no report: {r.stdout[-300:]} {r.stderr[:600]} {d}")
    if j["errors"]:
        shutil.copy(os.path.join(d, "a.R"), "/tmp/bad.R") if os.environ.get("BADR") else 0
        raise Misbehaved(f"{j['errors']} {d}")
    by = {}
    for x in j["diagnostics"]: by.setdefault(os.path.basename(x["filename"]), []).append(x)
    for n, (t, at) in files.items():
        ds = by.get(n, [])
        for s, b, pr in at:
            e = b + s.n
            out.append((reports([x for x in ds if b <= x["range"][0] < e], pr, s, b), s.t))
        if sum(len(x) for x, _ in out[-len(at):]) != len([x for x in ds if x["message"]["name"] == "unreachable_code"]): out[-1][0].append(dict(p=[-2], **{"from": 0, "to": 0}, why="outside"))
    shutil.rmtree(d, ignore_errors=True)
    return out

CONDS = [("x",), ("T",), ("F",)]
def alphabets(t):
    c3 = "{" + ", ".join(map(term, CONDS)) + "}"
    big = [("T",), ("F",), ("x",)]
    two = [(o, a, b) for o in ("or", "and") for a in big for b in big] + [("par", a) for a in big]
    out = [(["s", "ret", "stop", "brk", "nxt"], CONDS, ["if"], [1, 2], 2), (["s", "ret", "brk", "nxt"], CONDS[:1], ["loop"], [2, 3], 2), (["s", "stop"], CONDS[:1], ["loop", "blk", "fun"], [2, 2], 2),
           (["s", "ret"], two, ["if"], [1, 1], 2), (["s", "brk", "ret"], CONDS[:2], ["if", "loop"], [1, 1, 1], 3), (["s", "ret"], CONDS[:1], ["blk", "if", "fun"], [1, 1, 2], 3)]
    if t: out = [(["s", "ret", "stop", "brk", "nxt"], CONDS, ["if"], [2, 2], 2), (["s", "ret", "stop", "brk", "nxt"], CONDS[:1], ["loop", "blk", "fun"], [2, 3], 2), (["s", "ret"], two, ["if"], [1, 2], 2),
                 (["s", "brk", "ret"], CONDS, ["if", "loop"], [1, 1, 2], 3), (["s", "ret", "nxt"], CONDS[:2], ["blk", "if", "fun", "loop"], [1, 1, 2], 3), (["s", "brk"], CONDS[:1], ["if", "loop", "blk"], [1, 1, 1, 1], 4)]
    return out
def rand_cond(rng, d):
    if d == 0 or rng.random() < .4: return [rng.choice(["x", "x", "x", "T", "F"])]
    k = rng.choice(["or", "and", "par"])
    return [k, rand_cond(rng, d - 1)] if k == "par" else [k, rand_cond(rng, d - 1), rand_cond(rng, d - 1)]
def rand_seq(rng, d, loop, lo=0):
    out = []
    for _ in range(rng.choice([lo, 1, 1, 2, 2, 3, 4])):
        k = rng.choice(["s"] * 6 + ["ret", "stop"] + (["brk", "nxt"] if loop else []) + (["if"] * 6 + ["loop"] * 3 + ["blk", "fun"] if d else []))
        if k == "if": c = rand_cond(rng, rng.randint(0, 2)) if rng.random() < .4 else ["x"]; b = [rand_seq(rng, d - 1, loop) for _ in range(rng.choice([1, 2, 2]))]
        elif k in ("loop", "blk", "fun"): c = ["x"]; b = [rand_seq(rng, d - 1, k == "loop" or loop and k == "blk")]
        else: c = ["x"]; b = []
        out.append(dict(k=k, c=c, b=b))
    return out
def A01(chk):
    cli = build("jarl"); t = chk.thorough; base = tempfile.mkdtemp(prefix="jarlflow-"); rng = random.Random(chk.seed + 5)
    key = lambda s: sorted(json.dumps(x, sort_keys=True) for x in s)
    def one(job):
        vs, seed, inside = job
        for v, (got, text) in zip(vs, run_programs(cli, base, [v["prog"] for v in vs], seed, inside)):
            want = v["dead"] if inside else v["want"]
            if key(got) != key(want): chk.violation(f"{'function' if inside else 'file'} {text!r}: reported {got}; expected {want}", dict(case=v, text=text))
            else: chk.validated += 1
    try:
        for j, (atoms, conds, kinds, lens, depth) in enumerate(alphabets(t)):
            p = emit_with(chk, "FlowMC", f"""SPECIFICATION Spec
CONSTANTS
  Atoms = {setof(atoms)}
  Conds = {{{", ".join(term(c) if len(c) > 1 else '<<' + q(c[0]) + '>>' for c in conds)}}}
  Kinds = {setof(kinds)}
  Lens = <<{", ".join(map(str, lens))}>>
  Depth = {depth}
  Emits = TRUE
INVARIANTS Exact Solid Emit
CHECK_DEADLOCK FALSE
""", f"programs-{j}")
            vs = list(read_nd(p)); rng.shuffle(vs)
            if not t: vs = vs[:6000]
            jobs = [(vs[k:k + 150], rng.randint(0, 2**40), True) for k in range(0, len(vs), 150)] + [(vs[k:k + 40], rng.randint(0, 2**40), False) for k in range(0, len(vs) // 2, 40)]
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
        recs = []
        def rnd(seed):
            r = random.Random(seed); inside = r.random() < .5
            progs = [rand_seq(r, r.randint(1, 4), False, 1) for _ in range(25)]
            for pr, (got, text) in zip(progs, run_programs(cli, base, progs, seed, inside)):
                if inside: pr = [dict(k="fun", c=["x"], b=[pr])]; got = [dict(g, p=[1, 1] + g["p"]) for g in got]
                if len(text) < 1500: recs.append(dict(prog=pr, got=got, text=text))
        with ThreadPoolExecutor(8) as ex: list(ex.map(rnd, [rng.randint(0, 2**40) for _ in range(4000 if t else 300)]))
        chk.sample(recs[0])
        for k in range(0, len(recs), 8000):
            validate_records(chk, "FlowTrace", TRACE % "", recs[k:k + 8000], f"recorded reports {k}", describe=lambda r: f"missing {r.get('missing')}, too many {r.get('extra')}: {r['text']!r}")
    finally: shutil.rmtree(base, ignore_errors=True)
