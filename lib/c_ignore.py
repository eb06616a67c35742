"""S04: inserted ignore comments."""
import os, re, json, random, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from c_full import jarl, emit_with, setof, q, term
from c_core import TRACE, emit

RULES = ["any_is_na", "any_duplicated", "equals_na", "true_false_symbol", "unreachable_code"]
WORD = re.compile(r"[\w.]$"); WORD0 = re.compile(r"[\w.]")
XS = ["x", "x", "x", '"é"', '"p\n  q"', '"#"', "`a b`", "r\"(z)\""]
def render(rng, toks, starts, words, style, hand, reason):
    """Text of the tokens, and the text of each token. A line break only where a node begins (or at `;`).
    hand: comments (number of token, rule) that stand in it."""
    out = plain = ""; texts = []
    for k, t in enumerate(toks):
        w = words[k]; texts.append(w); gap = ""; mine = [r for at, r in hand if at == k + 1]
        if k:
            br = style != "tight" and (k + 1) in starts and rng.random() < {"broken": .8, "mixed": .3}[style]
            if toks[k - 1] == ";" and not texts[k - 1]: br = True
            if br or mine:
                gap = (rng.choice([" # note", "  # é", ""]) if rng.random() < .2 else "") + "\n" * rng.choice([1, 1, 1, 2]) + rng.choice(["", "  ", "    ", "\t"])
            elif WORD.search(plain) and WORD0.match(w) or rng.random() < .3 or w in ("<-", "==", "+", "|>") or toks[k - 1] in ("<-", "==", "+", "|>", ",", "-"): gap = " "
        if t == ";" and style != "tight" and rng.random() < .6: texts[-1] = w = ""; gap = ""   # the next token stands on a new line
        plain += gap + w
        if w: out += gap + "".join(f"# jarl-ignore {r}: {reason}\n{rng.choice(['', '  '])}" for r in mine) + w
    end = rng.choice(["\n", "\n", "", "\n\n"])
    return out + end, plain + end, texts

IGNORE = re.compile(r"# jarl-ignore ([\w]+): (.*)")
def read(text, texts):
    """The positions of the tokens in the text and the ignore comments before them; None if the code is another one."""
    p = 0; pos = []; com = []; k = 0; notes = []
    def skip():
        nonlocal p
        while p < len(text):
            if text[p] in " \t\r\n": p += 1
            elif text[p] == "#":
                e = text.find("\n", p); e = len(text) if e < 0 else e
                l = text[p:e].rstrip("\r"); m = IGNORE.fullmatch(l)
                if m and not text[text.rfind("\n", 0, p) + 1:p].strip(): com.append((k, m[1], m[2]))
                else: notes.append(l)
                p = e
            else: return
    for k, w in enumerate(texts):
        skip()
        if not text.startswith(w, p): return None
        pos.append(p); p += len(w)
    k = len(texts); skip()
    return (pos, com, notes) if p == len(text) else None

def parse(r):
    if not r.stdout.strip().startswith("{"): return {}
    out = {}
    for x in json.loads(r.stdout)["diagnostics"]: out.setdefault(os.path.basename(x["filename"]), []).append((x["message"]["name"], x["range"][0]))
    return out

def batch(cli, d, cases, seed):
    """Render the cases into files, with and without comments, lint, insert comments, lint and insert again."""
    rng = random.Random(seed); sel = ["--select", ",".join(RULES), "--output-format", "json"]
    work, bare = os.path.join(d, "work"), os.path.join(d, "bare"); os.makedirs(work); os.makedirs(bare)
    reason = rng.choice(["why", "<reason>", "é: b # c"])
    items = []
    for k, v in enumerate(cases):
        style = rng.choice(["tight", "mixed", "broken", "mixed"]); base = v["toks"]
        hand = []
        if rng.random() < .3:
            for _ in range(rng.randint(1, 3)):
                at = rng.choice(v["starts"]); near = [y["r"] for y in v["viols"]]
                hand.append((at, rng.choice(near if near and rng.random() < .8 else RULES)))
            hand = sorted(set(hand))
        body, plain, texts = render(rng, base, set(v["starts"]), [rng.choice(XS) if t == "x" else t for t in base], style, hand, reason)
        rmd = rng.random() < .2; crlf = rng.random() < .15; pre = post = ""
        if rmd:
            pre = rng.choice(["# Title\n\n", "é text\n", ""]) + "```{r}\n" + rng.choice(["", "#| echo: false\n", "\n"]); post = "\n```\n" + rng.choice(["", "\nText\n\n```{r}\nz\n```\n"])
            body = body.rstrip("\n"); plain = plain.rstrip("\n")
        body, plain, pre, post, *texts = [y.replace("\n", "\r\n") if crlf else y for y in (body, plain, pre, post, *texts)]
        name = f"f{k}.{'Rmd' if rmd else 'R'}"
        for sub, y in ((work, body), (bare, plain)):
            with open(os.path.join(sub, name), "w", newline="") as f: f.write(pre + y + post)
        items.append(dict(v=v, name=name, texts=texts, pre=pre, post=post, old=pre + body + post, plain=pre + plain + post, hand=hand))
    def load(x):
        with open(os.path.join(work, x["name"]), newline="") as f: return f.read()
    def look(x, text):
        if not (text.startswith(x["pre"]) and text.endswith(x["post"])): return None
        return read(text[len(x["pre"]):len(text) - len(x["post"])], [t for t in x["texts"] if t])
    def where(x, text, got):
        """(rule, token) of each diagnostic"""
        pos, com, notes = look(x, text)
        idx = [k for k, t in enumerate(x["texts"]) if t]
        at = {len((x["pre"] + text[len(x["pre"]):len(x["pre"]) + p]).encode()): idx[k] + 1 for k, p in enumerate(pos)}
        return sorted([r, at.get(o, 0)] for r, o in got)
    add_args = ["check", ".", *sel[:2], f"--add-jarl-ignore={reason}"]
    rs = [jarl(cli, ["check", ".", *sel], bare), jarl(cli, ["check", ".", *sel], work), jarl(cli, add_args, work)]
    for x in items: x["new"] = load(x)
    rs += [jarl(cli, ["check", ".", "--select", ",".join(RULES + ["outdated_suppression"]), *sel[2:]], work)]
    # rules about comments are selected now: nothing can be inserted for them
    rs += [jarl(cli, ["check", ".", *(["--select", sel[1] + ",COMM"] if seed % 2 else sel[:2]), add_args[-1]], work)]
    for x in items: x["again"] = load(x)
    all_, before, after = parse(rs[0]), parse(rs[1]), parse(rs[3])
    bad = [r for r, codes in zip(rs, ((0, 1), (0, 1), (0,), (0, 1), (0,))) if r.returncode not in codes]
    recs = []
    for x in items:
        n, o = look(x, x["new"]), look(x, x["old"]); name = x["name"]
        rec = dict(prog=x["v"]["prog"], file=name, old=x["old"], new=x["new"], hand=x["hand"], stable=x["again"] == x["new"], again=x["again"],
                   same=n is not None and n[2] == o[2] and all(c[2] == reason for c in n[1]))
        if n:
            idx = [k for k, t in enumerate(x["texts"]) if t] + [len(x["texts"])]
            rec.update(comments=[[idx[c[0]] + 1, c[1]] for c in n[1]], toks=x["v"]["toks"], all=where(x, x["plain"], all_.get(name, [])), before=where(x, x["old"], before.get(name, [])),
                       after=where(x, x["new"], [y for y in after.get(name, []) if y[0] != "outdated_suppression"]),
                       outdated=not x["hand"] and any(y[0] == "outdated_suppression" for y in after.get(name, [])))
        recs.append(rec)
    shutil.rmtree(d)
    return recs, "\n".join(f"{r.args} {r.returncode}: " + (r.stdout + r.stderr)[-600:] for r in bad)

def S04(chk):
    cli = build("jarl"); t = chk.thorough
    U = ["A", "call", "named", "callee", "assign", "paren", "minus", "sub", "sub2", "of", "dollar", "repeat", "lambda", "brace", "dead", "tilde"]
    Bn = ["call2", "plus", "pipe", "if", "else", "elif", "for", "while", "fun", "brace2", "dead2"]
    x, A, T = ["x"], ["A", ["x"]], ["T"]
    def tl_(ts): return "{" + ", ".join(term_(y) for y in ts) + "}"
    def term_(y): return "<<" + ", ".join([q(y[0])] + [term_(z) for z in y[1:]]) + ">>"
    runs = [(["x", "T"], U + Bn + ["E"], 2, ["prog1"], [x, A], False),
            (["x"], ["A", "B", "call", "assign", "brace", "dead"] + ["brace2", "if", "fun", "plus"], 3, ["prog1"], [A], False),
            (["T"], U + Bn, 2, ["prog2"], [T], False),
            (["x", "T"], U + Bn + ["E"], 1, ["prog1", "prog2", "stop2"], [A, T], True)]
    if t: runs += [(["x", "T"], ["A", "E", "paren", "of", "named", "lambda", "else", "elif", "pipe", "brace2", "dead"], 3, ["prog1", "prog2"], [x, A], False)]
    base = tempfile.mkdtemp(prefix="jarlign-")
    try:
        for j, (leaves, kinds, depth, progs, fill, small) in enumerate(runs):
            cfg = f"""SPECIFICATION {"Spec" if small else "GenSpec"}
CONSTANTS
  Leaves = {setof(leaves)}
  Kinds = {setof(kinds)}
  Depth = {depth}
  Progs = {setof(progs)}
  Fill = {tl_(fill)}
INVARIANTS {"EveryComment Possible Done NoMore Modesty" if small else ""} Emit
CHECK_DEADLOCK FALSE
"""
            vs = list({json.dumps(v["prog"]): v for v in read_nd(emit_with(chk, "IgnoreEditMC", cfg, f"programs-{j}"))}.values())
            go(chk, cli, base, vs, f"programs {j}", chk.seed + j)
        rng = random.Random(chk.seed + 99)
        def rterm(d):
            if d == 0 or rng.random() < .12: return [rng.choice(["x", "T", "x"])]
            k = rng.choice(U + Bn + ["A", "B", "E", "A"])
            return [k] + [rterm(d - 1) for _ in range(2 if k in Bn else 1)]
        progs = []
        for _ in range(6000 if t else 600):
            n = rng.randint(1, 3); progs.append([f"prog{n}" if n != 2 or rng.random() < .7 else "stop2"] + [rterm(rng.randint(1, 4)) for _ in range(n)])
        with open(chk.path("random.ndjson"), "w") as f: f.write("\n".join(json.dumps(dict(prog=p)) for p in progs) + "\n")
        vs = read_nd(emit(chk, "IgnoreEditGen", TRACE.replace("TSpec", "GSpec").replace("Accepted", "Emit") % "", "random", env=dict(TRACE=chk.path("random.ndjson"))))
        go(chk, cli, base, vs, "random programs", chk.seed + 7)
        # reasons that cannot be part of a comment, violations that are not shown, code without violations
        one = "any(is.na(x))\n"
        hidden = "".join(f"f{k} <- function() 1\n" for k in range(60))
        for label, files, args, codes, same in [
            ("an empty reason", {"a.R": one}, ["--add-jarl-ignore="], (255,), True), ("a blank reason", {"a.R": one}, ["--add-jarl-ignore=  "], (255,), True),
            ("a reason of two lines", {"a.R": one}, ["--add-jarl-ignore=a\nb"], (255,), True), ("no violation", {"a.R": "x\n"}, ["--add-jarl-ignore"], (0,), True),
            ("hidden violations", {"DESCRIPTION": "Package: p\nVersion: 1.0\n", "NAMESPACE": "export(m)\n", "R/a.R": hidden}, ["--select", "CORR", "--add-jarl-ignore"], (0,), True),
            ("a file that does not parse", {"a.R": one, "b.R": "any(is.na(x)\n"}, ["--add-jarl-ignore"], (255,), False)]:
            d = os.path.join(base, re.sub(r"\W", "-", label))
            for n, text in files.items():
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), "w") as f: f.write(text)
            r = jarl(cli, ["check", ".", *args], d)
            new = {n: open(os.path.join(d, n)).read() for n in files}
            want = dict(files) if same else dict(files, **{"a.R": "# jarl-ignore any_is_na: <reason>\n" + one})
            if r.returncode not in codes or new != want: chk.violation(f"{label}: ended with {r.returncode}, files {new if len(str(new)) < 900 else 'changed' if new != want else 'unchanged'}", dict(files=files, args=args, stdout=r.stdout[-900:], stderr=r.stderr[-900:], new=new))
            else: chk.validated += 1
    finally:
        shutil.rmtree(base, ignore_errors=True)

def go(chk, cli, base, vs, label, seed):
    rng = random.Random(seed); rng.shuffle(vs); n = 150
    jobs = [(k, vs[k:k + n], rng.randint(0, 2**40)) for k in range(0, len(vs), n)]
    recs = []
    def one(job):
        k, part, sd = job
        out, errs = batch(cli, os.path.join(base, re.sub("[^a-z0-9]", "-", label) + f"-{k}"), part, sd)
        if errs: chk.violation(f"{label}: a run did not end as it should: {errs}", dict(files=[(x['file'], x['old']) for x in out][:20], errs=errs))
        recs.extend(out)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    good = []
    for r in recs:
        if not r["same"]: chk.violation(f"{label}: the code changed: {r['old']!r} became {r['new']!r}", r)
        elif not r["stable"]: chk.violation(f"{label}: inserting again changed {r['new']!r} (from {r['old']!r})", r)
        elif r["outdated"]: chk.violation(f"{label}: a comment that hides nothing was inserted: {r['old']!r} became {r['new']!r}", r)
        else: good.append(r)
    if good:
        chk.sample({k: good[0][k] for k in ("old", "new", "comments")})
        validate_records(chk, "IgnoreEditTrace", TRACE % "", good, label, describe=lambda r: f"{r['old']!r} became {r['new']!r}; reported without comments {r['all']}, before {r['before']}, after {r['after']}, comments {r['comments']}")
