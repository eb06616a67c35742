------------------------------- MODULE Discover -------------------------------
(***************************************************************************)
(* Which files are checked.  A tree of directories (1 is the top) with files;  *)
(* some directories have a configuration with exclude and include patterns.     *)
(* Names are [s, e]: a stem and an extension, stems that start with "." hidden.  *)
(* A pattern is a sequence of segments: names, with "*" for any stem or any       *)
(* extension and the stem "**" for any number of directories.  `any`: a pattern    *)
(* of one segment that stands for a name at any depth; `dir`: directories only.     *)
(*                                                                         *)
(* The machine visits the given entries and what is below them, one at a time and  *)
(* in any order, skipping what is excluded, then filters the files it has found.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tree, dname, files, cfg, nodef, args, todo, kept, phase
dvars == <<tree, dname, files, cfg, nodef, args, todo, kept, phase>>
(* tree[d]: parent (0: none); files[f]: [d, s, e]; cfg[d]: [on, excl, incl, def];     *)
(* nodef: no default excludes asked for on the command line; args: [k, x]            *)
Dirs == 1..Len(tree)
Fs == 1..Len(files)
Lints == {"R", "r", "Rmd", "rmd", "qmd"}
Name(s, e) == [s |-> s, e |-> e]
Defaults == {[segs |-> <<Name("renv", "")>>, any |-> TRUE, dir |-> TRUE], [segs |-> <<Name("revdep", "")>>, any |-> TRUE, dir |-> TRUE]}
            \cup {[segs |-> <<Name(s, "R")>>, any |-> TRUE, dir |-> FALSE] : s \in {"cpp11", "RcppExports", "extendr-wrappers", "import-standalone-a", "import-standalone-"}}

Like(g, n) == (g.s \in {"*", n.s}) /\ (g.e \in {"*", n.e})
RECURSIVE Along(_, _)
Along(ss, p) == IF ss = <<>> THEN p = <<>>
                ELSE IF ss[1].s = "**" THEN IF Len(ss) = 1 THEN p # <<>> ELSE Along(Tail(ss), p) \/ (p # <<>> /\ Along(ss, Tail(p)))
                ELSE p # <<>> /\ Like(ss[1], p[1]) /\ Along(Tail(ss), Tail(p))
Matches(pat, p, isdir) == /\ p # <<>> /\ (pat.dir => isdir)
                          /\ IF pat.any THEN Like(pat.segs[1], p[Len(p)]) ELSE Along(pat.segs, p)
(* entries: [k |-> "dir", x |-> d] or [k |-> "file", x |-> f] *)
In(e) == IF e.k = "dir" THEN tree[e.x] ELSE files[e.x].d
NameOf(e) == IF e.k = "dir" THEN dname[e.x] ELSE Name(files[e.x].s, files[e.x].e)
RECURSIVE From(_, _)
(* the names from below directory r down to the entry *)
From(r, e) == IF In(e) = r THEN <<NameOf(e)>> ELSE Append(From(r, [k |-> "dir", x |-> In(e)]), NameOf(e))
RECURSIVE GovOf(_)
GovOf(d) == IF d = 0 THEN 0 ELSE IF cfg[d].on THEN d ELSE GovOf(tree[d])
Hidden(e) == NameOf(e).s \in {".h", ".a"}
(* excluded while walking, by the configuration of the directory the entry is in *)
Excluded(e) == LET g == GovOf(In(e))
                   pats == IF g = 0 THEN {} ELSE cfg[g].excl
                   def == IF nodef THEN {} ELSE IF g = 0 \/ cfg[g].def THEN Defaults ELSE {} IN
               (\E p \in pats : Matches(p, From(g, e), e.k = "dir")) \/ \E p \in def : Matches(p, <<NameOf(e)>>, e.k = "dir")
(* the directories between the configuration g and the entry, and the entry *)
RECURSIVE Chain(_, _)
Chain(g, e) == {e} \cup (IF In(e) \in {0, g} THEN {} ELSE Chain(g, [k |-> "dir", x |-> In(e)]))
Hit(pats, g, e) == \E c \in Chain(g, e) : \E p \in pats : Matches(p, From(g, c), c.k = "dir")
Kept(f) == LET g == GovOf(files[f].d) IN
           g = 0 \/ (~Hit(cfg[g].excl, g, [k |-> "file", x |-> f]) /\ (cfg[g].incl = {} \/ Hit(cfg[g].incl, g, [k |-> "file", x |-> f])))

DInit(t, n, fs, c, nd, a) == tree = t /\ dname = n /\ files = fs /\ cfg = c /\ nodef = nd /\ args = a
                             /\ todo = {[e |-> x, top |-> TRUE] : x \in a} /\ kept = {} /\ phase = "walk"
Const == UNCHANGED <<tree, dname, files, cfg, nodef, args>>
Children(d) == {[e |-> [k |-> "dir", x |-> y], top |-> FALSE] : y \in {y \in Dirs : tree[y] = d}} \cup {[e |-> [k |-> "file", x |-> f], top |-> FALSE] : f \in {f \in Fs : files[f].d = d}}
Visit(t) == /\ phase = "walk"
            /\ IF ~t.top /\ (Hidden(t.e) \/ Excluded(t.e)) THEN todo' = todo \ {t} /\ kept' = kept
               ELSE IF t.e.k = "dir" THEN todo' = (todo \ {t}) \cup Children(t.e.x) /\ kept' = kept
               ELSE /\ todo' = todo \ {t}
                    /\ kept' = IF t.top \/ files[t.e.x].e \in Lints THEN kept \cup {t.e.x} ELSE kept
            /\ Const /\ phase' = phase
VisitAny == \E t \in todo : Visit(t)
VisitOne == todo # {} /\ Visit(CHOOSE t \in todo : TRUE)
Filter == phase = "walk" /\ todo = {} /\ phase' = "end" /\ kept' = {f \in kept : Kept(f)} /\ Const /\ todo' = todo
Ended == phase = "end"

(* the property, without the machine *)
RECURSIVE Up(_)
Up(e) == {e} \cup (IF In(e) = 0 THEN {} ELSE Up([k |-> "dir", x |-> In(e)]))
Top(e) == In(e) = 0
Reached(a, f) == LET e == [k |-> "file", x |-> f] IN
                 a \in Up(e) /\ (a = e \/ (files[f].e \in Lints /\ \A b \in Up(e) \ Up(a) : ~Hidden(b) /\ ~Excluded(b)))
(* given although it, or a directory above it, is excluded or is no R file: left open *)
Doubtful(a) == (\E b \in Up(a) : ~Top(b) /\ Excluded(b)) \/ (a.k = "file" /\ files[a.x].e \notin Lints)
May == {f \in Fs : Kept(f) /\ \E a \in args : Reached(a, f)}
Must == {f \in Fs : Kept(f) /\ \E a \in args : Reached(a, f) /\ ~Doubtful(a)}
Exactly == Ended => kept = May /\ Must \subseteq kept
===============================================================================
