"""L06: the edits the editor offers (CodeAction, CodeActionText)."""
from vlib import *
from c_core import TRACE, emit
from c_full import jarl, emit_with, q, setof
from c_editor import Editor, any_text, classes, ENCS
from c_ignore import render, read, IGNORE
from concurrent.futures import ThreadPoolExecutor

ACTS = ["any_is_na", "any_duplicated", "equals_na", "true_false_symbol", "unreachable_code"]
XS = ["x", "x", '"é"', '"🌍"', '"€ 🌍"', '"p\n  q🌍"', '"#"', "`a b`", "é"]
UNITS = dict(utf8=lambda c: len(c.encode()), utf16=lambda c: len(c.encode("utf-16-le")) // 2, utf32=lambda c: 1)
def index(text, p, enc):
    """the character boundary at a position, None if there is none"""
    at = 0
    for _ in range(p["line"]):
        at = text.find("\n", at) + 1
        if not at: return None
    n = 0
    while n < p["character"]:
        if at >= len(text) or text[at] == "\n": return None
        n += UNITS[enc](text[at]); at += 1
    return at if n == p["character"] else None
def pos(p): return dict(line=p["line"], ch=p["character"])
CHUNKS = re.compile(r"#\| jarl-ignore-chunk:\s*"); ITEM = re.compile(r"#\|\s+- ([\w]+): (\S.*)")
def chunk_comments(code):
    """the `#|` lines at the top of a chunk: the rules ignored in it, the other lines, the rest"""
    rules = []; other = []; at = 0; arr = False
    while code.startswith("#|", at) or (code[at:at + 1] in ("\n", "\r") and "#|" in code[at:at + 4]):
        if code[at] in "\r\n": other.append("\n"); at = code.find("\n", at) + 1; continue
        e = code.find("\n", at); e = len(code) if e < 0 else e; l = code[at:e].rstrip("\r")
        it = ITEM.fullmatch(l) if arr else None
        if CHUNKS.fullmatch(l): arr = True
        elif it: rules.append(it[1])
        else: other.append(l); arr = False
        at = min(e + 1, len(code))
    return rules, other, code[at:]
def form(ins, rule):
    """is the inserted text one comment that ignores the rule, and white space?"""
    l = ins.strip().split("\n")
    if len(l) == 1: m = IGNORE.fullmatch(l[0].rstrip()); return bool(m and m[1] == rule and m[2].strip())
    m = ITEM.fullmatch(l[1].rstrip()) if len(l) == 2 and CHUNKS.fullmatch(l[0].rstrip()) else None
    return bool(m and m[1] == rule)
def edits(answer, u):
    """what an answer offers: (kind, diagnostic, range, new text)"""
    out = []
    for a in answer["result"] or []:
        ch = (a.get("edit") or {}).get("changes") or {}
        for c in (a.get("edit") or {}).get("documentChanges") or []: ch = dict(ch, **{c["textDocument"]["uri"]: c["edits"]})
        if len(ch) != 1 or len(next(iter(ch.values()))) != 1: out.append(("odd", a, None, None)); continue
        e = next(iter(ch.values()))[0]; t = e["newText"]
        out.append(("chunk" if "jarl-ignore-chunk" in t else "here" if "jarl-ignore" in t else "fix", a["diagnostics"][0], e["range"], t))
    return out

# ---------------------------------------------------------------- documents of known structure
def document(rng, v):
    """Text of the chunks of a document: the frame around the bodies, and the bodies with and without comments."""
    toks = v["toks"]; cuts = [-1] + [k for k, t in enumerate(toks) if t == "```"] + [len(toks)]
    rmd = len(cuts) > 2 or rng.random() < .3; crlf = rng.random() < .15
    frames = []; bodies = []
    for c, (a, b) in enumerate(zip(cuts, cuts[1:])):
        part = toks[a + 1:b]; st = {s - a - 1 for s in v["starts"] if a + 1 < s <= b}
        near = [y["r"] for y in v["viols"] if a + 1 < y["lo"] <= b]; hand = []
        if rng.random() < .35:
            for _ in range(rng.randint(1, 3)): hand.append((rng.choice(sorted(st)), rng.choice(near if near and rng.random() < .8 else ACTS)))
        body, plain, texts = render(rng, part, st, [rng.choice(XS) if t == "x" else t for t in part], rng.choice(["tight", "mixed", "broken", "mixed"]), sorted(set(hand)), "why é")
        head = bare = ""
        if rmd:
            body = body.rstrip("\n"); plain = plain.rstrip("\n")
            opts = rng.choice([[], [], ["echo: false"], ["label: é", "fig-cap: any_is_na"]])
            mine = [rng.choice(near if near and rng.random() < .8 else ACTS)] if rng.random() < .25 else []
            bare = "".join(f"#| {o}\n" for o in opts)
            head = "".join(f"#| jarl-ignore-chunk:\n#|   - {r}: é\n" for r in mine) + bare
            if rng.random() < .1: head = bare = bare + "\n"
            frames.append((rng.choice(["# Titel é🌍\n\n", "", "Text\n\n"]) if not c else "\n```\n\n" + rng.choice(["é any(is.na(x))\n\n", ""])) + rng.choice(["", "", "  "]) + rng.choice(["```{r}\n", "```{r, echo=FALSE}\n"]))
        else: frames.append("")
        bodies.append(dict(old=head + body, plain=bare + plain, texts=texts, at=a + 1))
    frames.append("\n```\n" + rng.choice(["", "\nText\n"]) if rmd else "")
    if crlf:
        frames = [f.replace("\n", "\r\n") for f in frames]
        for b in bodies: b.update(old=b["old"].replace("\n", "\r\n"), plain=b["plain"].replace("\n", "\r\n"), texts=[t.replace("\n", "\r\n") for t in b["texts"]])
    return rmd, frames, bodies
def join(frames, bodies): return "".join(f + b for f, b in zip(frames, bodies)) + frames[-1]
def analyse(frames, codes, bodies, got):
    """comments, chunk comments and (rule, token) of the reports of a text; None if the code is another one"""
    com = []; cks = []; at = {}; notes = []; off = 0
    for k, (f, code, b) in enumerate(zip(frames, codes, bodies)):
        rules, other, rest = chunk_comments(code); r = read(rest, [t for t in b["texts"] if t])
        if r is None: return None
        idx = [j for j, t in enumerate(b["texts"]) if t] + [len(b["texts"])]
        base = off + len((f + code[:len(code) - len(rest)]).encode())
        for j, p in enumerate(r[0]): at[base + len(rest[:p].encode())] = b["at"] + idx[j] + 1
        com += [[b["at"] + idx[c[0]] + 1, c[1]] for c in r[1]]; cks += [[k + 1, x] for x in rules]
        notes.append((other, r[2])); off += len((f + code).encode())
    return com, cks, sorted([r, at.get(o, 0)] for r, o in got), notes
def reports(cli, d, env):
    r = jarl(cli, ["check", ".", "--select", ",".join(ACTS), "--output-format", "json"], d, env=env)
    if r.returncode not in (0, 1): raise Misbehaved(f"check ended with {r.returncode}: {r.stderr[-500:]}")
    out = {}
    for x in json.loads(r.stdout)["diagnostics"] if r.stdout.strip().startswith("{") else []: out.setdefault(os.path.basename(x["filename"]), []).append((x["message"]["name"], x["range"][0]))
    return out
def batch(chk, cli, d, cases, seed):
    rng = random.Random(seed); env = dict(XDG_CONFIG_HOME=d, HOME=d)
    work, bare, after = (os.path.join(d, x) for x in ("work", "bare", "after"))
    for x in (work, bare, after): os.makedirs(x)
    with open(os.path.join(work, "jarl.toml"), "w") as f: f.write(f"[lint]\nselect = {json.dumps(ACTS)}\n")
    items = []
    for k, v in enumerate(cases):
        rmd, frames, bodies = document(rng, v); name = f"f{k}." + (rng.choice(["Rmd", "qmd"]) if rmd else "R")
        items.append(dict(v=v, name=name, frames=frames, bodies=bodies, text=join(frames, [b["old"] for b in bodies]), rmd=rmd))
        for sub, y in ((work, "old"), (bare, "plain")):
            with open(os.path.join(sub, name), "w", newline="") as f: f.write(join(frames, [b[y] for b in bodies]))
    all_ = reports(cli, bare, env)
    enc = rng.choice([*ENCS, "any"]); ed = Editor(cli, d, env, enc, None); recs = []; bad = []
    if not ed.enc_ok: chk.violation(f"asked for {enc}, got {ed.got}", dict(got=ed.got)); return []
    enc = ed.enc
    try:
        for x in items:
            path = os.path.join(work, x["name"]); x["diags"] = ed.lint(path, x["text"]); x["acts"] = []; seen = set()
            for g in x["diags"]:
                for kind, dg, r, t in edits(ed.actions(path, g["range"], [g]), path):
                    key = (kind, json.dumps(dg, sort_keys=True), json.dumps(r), t)
                    if key not in seen: seen.add(key); x["acts"].append((kind, dg, r, t))
    finally: rc = ed.close()
    if rc != 0: chk.violation(f"the server ended with {rc}", dict(files={x["name"]: x["text"] for x in items}))
    todo = []
    for x in items:
        names = [t["data"]["rule_name"] for t in x["diags"]]
        x["before"] = [(g["data"]["rule_name"], len(x["text"][:index(x["text"], g["range"]["start"], enc) or 0].encode())) for g in x["diags"]]
        o = analyse(x["frames"], [b["old"] for b in x["bodies"]], x["bodies"], x["before"])
        p = analyse(x["frames"], [b["plain"] for b in x["bodies"]], x["bodies"], all_.get(x["name"], []))
        if o is None or p is None: raise Misbehaved(f"cannot read {x['text']!r}")
        base = dict(prog=x["v"]["prog"], file=x["name"], enc=enc, toks=x["v"]["toks"], all=p[2], before=o[2], comments=o[0], chunks=o[1], old=x["text"])
        offers = []; x["notes"] = o[3]
        for kind, dg, r, t in x["acts"]:
            if kind == "odd": chk.violation(f"an edit of several places was offered in {x['text']!r}", dict(text=x["text"], action=dg)); continue
            if kind == "fix": continue                      # CodeActionText
            a = index(x["text"], dg["range"]["start"], enc); asked = analyse(x["frames"], [b["old"] for b in x["bodies"]], x["bodies"], [(dg["data"]["rule_name"], len(x["text"][:a].encode()))])[2][0]
            if kind == "here": offers.append(asked)
            s, e = index(x["text"], r["start"], enc), index(x["text"], r["end"], enc)
            why = None; rec = dict(base, what=kind, asked=asked, edit=dict(range=r, newText=t))
            if s is None or s != e: why = "the edit does not insert at a position of the text"
            elif not form(t, asked[0]): why = "the edit does not insert one comment of the rule"
            else:
                off = 0; codes = None
                for k, (f, b) in enumerate(zip(x["frames"], x["bodies"])):
                    lo = off + len(f); hi = lo + len(b["old"])
                    if lo <= s <= hi: codes = [c["old"] for c in x["bodies"]]; codes[k] = b["old"][:s - lo] + t + b["old"][s - lo:]; break
                    off = hi
                if codes is None: why = "the comment is inserted outside of the code"
                else: rec.update(at=s, pos=pos(r["start"]), text=classes(x["text"]), new=join(x["frames"], codes)); todo.append((rec, x, codes))
            if why: chk.violation(f"{x['text']!r} ({enc}), {asked}: {why}: {rec['edit']}", rec)
        recs.append(dict(base, what="look", offers=offers))
    for k, (rec, x, codes) in enumerate(todo):
        rec["out"] = f"g{k}." + x["name"].split(".")[1]
        with open(os.path.join(after, rec["out"]), "w", newline="") as f: f.write(rec["new"])
    left = reports(cli, after, env)
    for rec, x, codes in todo:
        n = analyse(x["frames"], codes, x["bodies"], left.get(rec["out"], []))
        if n is None or n[3] != x["notes"]: chk.violation(f"{rec['old']!r} ({enc}), {rec['asked']}: the code is another one after {rec['edit']}: {rec['new']!r}", rec); continue
        recs.append(dict(rec, newcomments=n[0], newchunks=n[1], after=n[2]))
    shutil.rmtree(d)
    return recs
def go(chk, cli, base, vs, label, seed):
    rng = random.Random(seed); rng.shuffle(vs); n = 60; recs = []
    def one(job): recs.extend(batch(chk, cli, os.path.join(base, re.sub("[^a-z0-9]", "-", label) + f"-{job[0]}"), job[1], job[2]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, [(k, vs[k:k + n], rng.randint(0, 2**40)) for k in range(0, len(vs), n)]))
    chk.note("edits_that_ignore", sum(r["what"] != "look" for r in recs)); chk.note("documents", sum(r["what"] == "look" for r in recs))
    if recs: chk.sample({k: v for k, v in recs[-1].items() if k not in ("text",)})
    def tell(r):
        head = f"{r['old']!r} ({r['enc']}), comments {r['comments']} {r['chunks']}, reported {r['before']} (without comments {r['all']})"
        return head + (f": offered to ignore {r['offers']}" if r["what"] == "look" else f": ignoring {r['asked']} ({r['what']}) gives {r['new']!r}, then reported {r['after']}")
    validate_records(chk, "CodeActionTrace", TRACE % "", recs, label, describe=tell)

# ---------------------------------------------------------------- any content
FIXABLE = ["any(is.na(x))", "x == NA", "x = 1", "length(x == 1)", "if (x == TRUE) 1", "sapply(x, length)", "y <- .1", "all(!x)", "1 -> x", "T", "any(duplicated(x))", "x != NULL", "ifelse(x, TRUE, FALSE)", "!(x == y)", "is.null(x) || !x",
           "do.call(cbind.data.frame, x)", "length(levels(x))", "which(grepl('a', x))", "if (a) {\n  if (b) {\n    1\n  }\n}", "x[order(x)]", "any(is.na(\n  x # why\n))", "any(is.na(\n  '🌍'\n))", "if (is.null(x)) y else x", "while (TRUE) {\n  f()\n}", 'substr(x, 1L, 3L) == "é€"', 'system.file(package = "é", "🌍")',
           "x %in% NA", "apply(x, 1, sum)", "seq(1, length(x))", "sprintf('é')", "grepl('abc', x)", "paste0(1:length(x))", "if (class(x) == 'foo') 1", "expect_equal(length(x), 1)", "expect_true(is.null(x))", "f(a = any(is.na(x)), 'é' == NA)"]
def content(rng, rmd):
    if rng.random() < .5: return any_text(rng, rmd)
    nl = rng.choice(["\n", "\n", "\r\n"]); l = []
    for b in rng.sample(FIXABLE, rng.randint(1, 5)):
        pre = rng.choice(["", "", '"é"; ', '"🌍€"; ', "é <- ", "f('🌍', ", "  ", "\t"])
        l += (pre + b + (")" if pre.startswith("f(") else "")).split("\n")
        if rng.random() < .2: l[-1] += rng.choice([" # é", "; y", ";"])
    out = ["é", "```{r}"] + l + ["```"] if rmd else l
    return nl.join(out) + (nl if rng.random() < .8 else "")
def L06_texts(chk, cli, base, n):
    recs = []
    def one(job):
        k, seed = job; rng = random.Random(seed); d = os.path.join(base, f"t{k}"); top = os.path.join(d, rng.choice(["p", "p q"])); os.makedirs(top)
        env = dict(XDG_CONFIG_HOME=d, HOME=d, RAYON_NUM_THREADS="2")
        if rng.random() < .3:
            os.makedirs(os.path.join(top, "R"))
            with open(os.path.join(top, "DESCRIPTION"), "w") as f: f.write("Package: p\nVersion: 1.0\nDepends: R (>= 4.5.0)\n")
            with open(os.path.join(top, "NAMESPACE"), "w") as f: f.write("export(main)\n")
        with open(os.path.join(top, "jarl.toml"), "w") as f:
            f.write("[lint]\n" + rng.choice(['select = ["ALL"]\n', 'select = ["ALL"]\n', 'extend-select = ["TESTTHAT", "PERF"]\n', ""]) + rng.choice(["", "", 'unfixable = ["any_is_na"]\n', 'fixable = ["equals_na", "assignment"]\n']))
        rmd = rng.random() < .25; sub = "R" if os.path.isdir(os.path.join(top, "R")) else ""
        rel = os.path.join(sub, rng.choice(["a", "é", "a b"]) + "." + (rng.choice(["Rmd", "qmd"]) if rmd else "R")); path = os.path.join(top, rel); text = content(rng, rmd)
        def check(t, *extra):
            with open(path, "w", newline="") as f: f.write(t)
            r = jarl(cli, ["check", ".", "--min-r-version", "9.9", "--output-format", "json", *extra], top, env=env)
            if r.returncode not in (0, 1): return None
            return json.loads(r.stdout)["diagnostics"] if r.stdout.strip().startswith("{") else []
        before = check(text)
        if not before: shutil.rmtree(d); return             # nothing to offer
        enc = rng.choice([*ENCS, "any"]); out = []
        if not os.path.exists(os.path.join(top, "DESCRIPTION")) and rng.random() < .5: pass
        ed = Editor(cli, d, env, enc, None); enc = ed.enc; asks = []
        try:
            diags = ed.lint(path, text); acts = []; can = []; seen = set()
            ident = lambda g: dict(n=g["data"]["rule_name"], s=pos(g["range"]["start"]), e=pos(g["range"]["end"]), m=g["message"])
            for g in diags:
                for kind, dg, r, t in edits(ed.actions(path, g["range"], [g] if rng.random() < .7 else []), path):
                    key = (kind, json.dumps(dg, sort_keys=True), json.dumps(r), t)
                    if key not in seen: seen.add(key); acts.append((kind, dg, r, t))
            can = [ident(dg) for dg in {json.dumps(a[1], sort_keys=True): a[1] for a in acts}.values()]
            lines = text.split("\n")
            def spot():
                if rng.random() < .5 and diags:
                    p = rng.choice(diags)["range"][rng.choice(["start", "end"])]; return dict(line=p["line"], character=max(0, p["character"] + rng.choice([-1, 0, 0, 1])))
                l = rng.randrange(len(lines)); return dict(line=l, character=sum(map(UNITS[enc], lines[l][:rng.randint(0, len(lines[l]))])))
            for _ in range(3):
                a, b = sorted([spot(), spot()], key=lambda p: (p["line"], p["character"]))
                if rng.random() < .3: b = a
                got = edits(ed.actions(path, dict(start=a, end=b), []), path)
                asks.append(dict(what="ask", s=pos(a), e=pos(b), can=can, got=[ident(dg) for dg in {json.dumps(x[1], sort_keys=True): x[1] for x in got}.values()]))
        finally: rc = ed.close()
        if rc != 0: chk.violation(f"the server ended with {rc}", dict(text=text))
        c = classes(text); common = dict(enc=enc, text=c, file=rel, source=text)
        # positions the editor may not be asked about (inside of a character) are left out
        recs.extend(dict(common, **a) for a in asks)
        D = lambda x: dict(n=x["message"]["name"], s=x["range"][0], e=x["range"][1])
        # the editor takes the R version from the package only: compare what both report
        both = {}
        for x in before: both.setdefault((x["message"]["name"], *(x["range"])), x)
        def at(p): i = index(text, p, enc); return None if i is None else len(text[:i].encode())
        offered = []; mine = []
        for g in diags:
            key = (g["data"]["rule_name"], at(g["range"]["start"]), at(g["range"]["end"])); mine.append(key)
        for kind, dg, r, t in acts:
            key = (dg["data"]["rule_name"], at(dg["range"]["start"]), at(dg["range"]["end"])); x = both.get(key); edit = dict(range=r, newText=t); tag = dict(common, edit=edit, problem=key)
            if kind == "odd" or x is None: chk.violation(f"{text!r} ({enc}): an edit was offered for {key}, which is not reported, or of several places", dict(tag, reported=sorted(both))); continue
            if kind == "fix":
                f = x.get("fix") or {}; has = bool(f.get("content")) and not f.get("to_skip")
                recs.append(dict(tag, what="fix", has=has, fs=f["start"] if has else 0, fe=f["end"] if has else 0, s=pos(r["start"]), e=pos(r["end"]), same=has and t == f["content"])); offered.append(key)
                if has and sum(bool(y["fix"].get("content")) for y in before) == 1 and at(r["start"]) is not None and at(r["end"]) is not None:
                    b = text.encode(); new = (b[:at(r["start"])] + t.encode() + b[at(r["end"]):]).decode()
                    rest = check(new)
                    if rest is not None and not any(y["fix"].get("content") for y in rest):
                        check(text, "--fix", "--unsafe-fixes", "--allow-no-vcs")
                        with open(path, newline="") as h: fixed = h.read()
                        if fixed != new: chk.violation(f"{text!r} ({enc}): the edit {edit} gives {new!r}, the fix engine {fixed!r}", dict(tag, new=new, fixed=fixed))
                        else: chk.validated += 1
                continue
            s, e = at(r["start"]), at(r["end"])
            if s is None: chk.violation(f"{text!r} ({enc}), {key}: the edit {edit} is at no position of the text", tag); continue
            b = text.encode(); new = (b[:s] + t.encode() + b[(s if e is None else e):]).decode(); after = check(new)
            if after is None: chk.violation(f"{text!r} ({enc}), {key}: after the edit {edit}, {new!r} does not parse", dict(tag, new=new)); continue
            recs.append(dict(tag, what="ignore", before=[D(y) for y in before], after=[D(y) for y in after], asked=D(x), s=pos(r["start"]), e=pos(r["end"]), at=s, n=len(t.encode()), form=form(t, key[0]), new=new))
        F = lambda k: dict(n=k[0], s=k[1], e=k[2])
        recs.append(dict(common, what="fixes", fixes=[F(k) for k in mine if k in both and both[k]["fix"].get("content")], offered=[F(k) for k in offered]))
        shutil.rmtree(d)
    rng = random.Random(chk.seed + 5)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, [(k, rng.randint(0, 2**40)) for k in range(n)]))
    for w in ("fix", "ignore", "ask"): chk.note(f"recorded_{w}", sum(r["what"] == w for r in recs))
    def tell(r):
        h = f"{r['file']} ({r['enc']}) {r['source']!r}: "
        return h + (f"asked for {r['s']}..{r['e']}, offered for {r['got']}" if r["what"] == "ask" else f"fixes offered for {r['offered']}, the engine's are for {r['fixes']}" if r["what"] == "fixes"
                    else f"{r['problem']}: the edit {r['edit']}" + (f", the engine replaces bytes {r['fs']}..{r['fe']}" if r["what"] == "fix" else f" gives {r['new']!r}; reported {[tuple(x.values()) for x in r['before']]}, then {[tuple(x.values()) for x in r['after']]}"))
    validate_records(chk, "CodeActionText", "SPECIFICATION Spec\nINVARIANT Accepted\nCHECK_DEADLOCK FALSE\n", recs, "texts", describe=tell)

def L06(chk):
    cli = build("jarl"); base = tempfile.mkdtemp(prefix="jarlact-"); t = chk.thorough
    def term_(y): return "<<" + ", ".join([q(y[0])] + [term_(z) for z in y[1:]]) + ">>"
    x, A, T, AA = ["x"], ["A", ["x"]], ["T"], ["plus", ["A", ["x"]], ["E", ["x"]]]
    kinds = ["A", "E", "call", "named", "assign", "paren", "of", "brace", "dead", "lambda", "plus", "pipe", "if", "else", "elif", "fun", "while", "call2", "brace2"]
    few = ["A", "E", "call", "paren", "brace", "dead", "plus", "if", "elif", "fun", "brace2"]
    runs = [(["x", "T"], few, 1, ["doc1", "doc2"], [A, T] if t else [A], True), (["x"], kinds, 2, ["doc1"], [x, A], False), (["T"], ["A", "E", "call", "elif", "dead2", "if"], 2 if t else 1, ["doc2"], [A, AA], False)]
    if t: runs += [(["x"], ["A", "B", "E", "call", "brace", "else", "fun", "dead", "pipe"], 3, ["doc1"], [A], False)]
    try:
        for j, (leaves, ks, depth, docs, fill, small) in enumerate(runs):
            cfg = f"""SPECIFICATION {"Spec" if small else "GenSpec"}
CONSTANTS
  Leaves = {setof(leaves)}
  Kinds = {setof(ks)}
  Depth = {depth}
  Docs = {setof(docs)}
  Fill = {"{" + ", ".join(map(term_, fill)) + "}"}
INVARIANTS {"One Gone NothingNew OnlyThat CanBe" if small else ""} Emit
CHECK_DEADLOCK FALSE
"""
            vs = list({json.dumps(v["prog"]): v for v in read_nd(emit_with(chk, "CodeActionMC", cfg, f"documents-{j}"))}.values())
            if not t and len(vs) > (200 if j == 2 else 500): vs = random.Random(chk.seed + j).sample(vs, 200 if j == 2 else 500)
            go(chk, cli, base, vs, f"documents {j}", chk.seed + j)
        rng = random.Random(chk.seed + 98)
        def rterm(d):
            if d == 0 or rng.random() < .12: return [rng.choice(["x", "T", "x"])]
            k = rng.choice(kinds + ["B", "A", "dead2", "sub", "tilde", "for", "repeat", "minus", "dollar", "callee"])
            return [k] + [rterm(d - 1) for _ in range(2 if k in ("plus", "pipe", "if", "else", "elif", "fun", "while", "call2", "brace2", "dead2", "for") else 1)]
        progs = []
        for _ in range(4000 if t else 300):
            m = rng.choice([1, 1, 2, 3]); doc = [f"doc{m}"]
            for _ in range(m): n = rng.randint(1, 3); doc.append([f"prog{n}" if n != 2 or rng.random() < .7 else "stop2"] + [rterm(rng.randint(1, 3)) for _ in range(n)])
            progs.append(doc)
        write_nd(chk.path("random.ndjson"), [dict(prog=p) for p in progs])
        vs = read_nd(emit(chk, "IgnoreEditGen", TRACE.replace("TSpec", "GSpec").replace("Accepted", "Emit") % "", "random", env=dict(TRACE=chk.path("random.ndjson"))))
        go(chk, cli, base, vs, "random documents", chk.seed + 7)
        L06_texts(chk, cli, base, 5000 if t else 500)
    finally: shutil.rmtree(base, ignore_errors=True)
