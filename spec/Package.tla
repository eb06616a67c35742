------------------------------- MODULE Package -------------------------------
(***************************************************************************)
(* Analyses of whole packages.  A tree of R and C files; each file has an     *)
(* owner (the closest directory above it with a DESCRIPTION) and a place in    *)
(* it.  Every package has a NAMESPACE, or none.  Names are sequences of parts  *)
(* between dots: <<"print", "foo">> is print.foo.                             *)
(*                                                                         *)
(* The machine looks at one file after another, in any order, and counts       *)
(* occurrences and definitions; then it judges every definition.  What it       *)
(* finds must be what the declarative definitions Dup and Unused say.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files, spaces, sel, skip, phase, todo, occ, defs, extra, reports
pvars == <<files, spaces, sel, skip, phase, todo, occ, defs, extra, reports>>
(* files: sequence of [pkg, place, rank, on, tall, items]; on: the run was asked for it; *)
(* tall: its "multi" items take three lines (they do until they are fixed)             *)
(* rank: the order of the paths; items: sequence of [k, n, ign], one below the other   *)
(* spaces: by package, [there, dirs] with dirs a sequence of [d, n, c]                *)
(* sel: the rules asked for; skip: names that are never unused                         *)
Files == 1..Len(files)
Places == {"R", "sub", "tests", "tinytest", "insttests", "src", "else"}
ScopeOf(f) == CASE files[f].place \in {"tinytest", "insttests"} -> "inst"
              [] files[f].place \in {"sub", "src"} -> "mention"
              [] OTHER -> files[f].place
DirOf(f) == CASE files[f].place = "tests" -> "tests/" [] files[f].place = "tinytest" -> "inst/tinytest/"
              [] files[f].place = "insttests" -> "inst/tests/" [] OTHER -> ""
Items(f) == 1..Len(files[f].items)
It(f, j) == files[f].items[j]
(* a "def" is a function definition at the start of a line; an "inner" one is indented: *)
(* it only mentions its name, as do calls, strings, arguments, other assignments and     *)
(* roxygen comments ("use").  A "comment" mentions nothing, but in C # starts a macro.     *)
Mentions(f, j) == It(f, j).k \in {"def", "use", "inner", "macro"}
IsDef(f, j) == It(f, j).k = "def" /\ ScopeOf(f) \in {"R", "tests", "inst"}
Height(f, j) == (IF It(f, j).k = "multi" /\ files[f].tall THEN 3 ELSE 1) + Len(It(f, j).ign)
RECURSIVE Above(_, _)
Above(f, j) == IF j = 1 THEN 0 ELSE Above(f, j-1) + Height(f, j-1)
LineOf(f, j) == Above(f, j) + Len(It(f, j).ign) + 1

(* ------------------------------------------------------------ what is exported *)
(* of the names: *)
Exported(p, n) == \E k \in 1..Len(spaces[p].dirs) : LET d == spaces[p].dirs[k] IN
   CASE d.d \in {"export", "methods", "classes"} -> d.n = n
     [] d.d = "s3" -> d.n \o d.c = n
     [] d.d = "s3fun" -> d.f = n
     [] d.d = "all" -> TRUE
     [] d.d = "visible" -> n[1] # ""
     [] d.d = "exactly" -> d.n = n
     [] d.d = "family" -> Len(n) > Len(d.n) /\ SubSeq(n, 1, Len(d.n)) = d.n
     [] OTHER -> FALSE
Hooks == {<<"", "onLoad">>, <<"on_load">>, <<"", "onAttach">>, <<"", "onDetach">>, <<"", "onUnload">>, <<"", "Last", "lib">>, <<"", "First", "lib">>}
Prefixes(n) == {SubSeq(n, 1, k) : k \in 1..(Len(n) - 1)} \ {<<"">>}

(* ------------------------------------------------------------------- definitions *)
Same(f, g) == files[f].pkg = files[g].pkg
Judged(p) == \E f \in Files : files[f].pkg = p /\ ScopeOf(f) = "R" /\ files[f].on
Before(f, i, g, j) == files[f].rank < files[g].rank \/ (f = g /\ i < j)
Earlier(g, j) == {x \in Files \X (1..9) : LET f == x[1] i == x[2] IN
                    i <= Len(files[f].items) /\ IsDef(f, i) /\ ScopeOf(f) = "R" /\ Same(f, g) /\ It(f, i).n = It(g, j).n /\ Before(f, i, g, j)}
Dup(g, j) == IsDef(g, j) /\ ScopeOf(g) = "R" /\ Earlier(g, j) # {}
First(g, j) == CHOOSE x \in Earlier(g, j) : \A y \in Earlier(g, j) : y = x \/ Before(x[1], x[2], y[1], y[2])
UsedIn(p, n, scopes) == \E f \in Files : files[f].pkg = p /\ ScopeOf(f) \in scopes /\ \E j \in Items(f) : Mentions(f, j) /\ It(f, j).n = n /\ ~IsDef(f, j)
MentionedIn(p, n, scopes) == \E f \in Files : files[f].pkg = p /\ ScopeOf(f) \in scopes /\ \E j \in Items(f) : Mentions(f, j) /\ It(f, j).n = n
Unused(g, j) == LET p == files[g].pkg n == It(g, j).n IN
   /\ IsDef(g, j) /\ Judged(p) /\ spaces[p].there /\ n \notin skip
   /\ IF ScopeOf(g) = "R" THEN
         /\ ~Exported(p, n) /\ n \notin Hooks
         /\ \A m \in Prefixes(n) : ~MentionedIn(p, m, {"R"})
         /\ ~UsedIn(p, n, {"R"}) /\ ~MentionedIn(p, n, {"mention", "tests", "inst"})
      ELSE ~UsedIn(p, n, {ScopeOf(g)})
Ignored(g, j, r) == \E k \in 1..Len(It(g, j).ign) : It(g, j).ign[k] = r
DupReport(g, j) == LET x == First(g, j) IN [r |-> "dup", f |-> g, l |-> LineOf(g, j), n |-> It(g, j).n, of |-> x[1], ol |-> LineOf(x[1], x[2]), dir |-> ""]
UnusedReport(g, j) == [r |-> "unused", f |-> g, l |-> LineOf(g, j), n |-> It(g, j).n, of |-> g, ol |-> LineOf(g, j), dir |-> DirOf(g)]
Shown(g, j, r) == files[g].on /\ r \in sel /\ ~Ignored(g, j, r)
Right == {DupReport(g, j) : <<g, j>> \in {x \in Files \X (1..9) : x[2] <= Len(files[x[1]].items) /\ Judged(files[x[1]].pkg) /\ Dup(x[1], x[2]) /\ Shown(x[1], x[2], "dup")}}
         \cup {UnusedReport(g, j) : <<g, j>> \in {x \in Files \X (1..9) : x[2] <= Len(files[x[1]].items) /\ Unused(x[1], x[2]) /\ Shown(x[1], x[2], "unused")}}

(* ---------------------------------------------------------------------- machine *)
Zero == [x \in {} |-> 0]
Plus(m, key) == [k \in DOMAIN m \cup {key} |-> (IF k \in DOMAIN m THEN m[k] ELSE 0) + (IF k = key THEN 1 ELSE 0)]
Get(m, key) == IF key \in DOMAIN m THEN m[key] ELSE 0
PInit(fs, ss, s, sk) ==
   /\ files = fs /\ spaces = ss /\ sel = s /\ skip = sk
   /\ phase = "scan" /\ todo = 1..Len(fs) /\ occ = Zero /\ defs = Zero /\ extra = {} /\ reports = {}
Const == UNCHANGED <<files, spaces, sel, skip>>
RECURSIVE Count(_, _, _, _)
Count(m, f, j, only) == IF j > Len(files[f].items) THEN m
   ELSE Count(IF (IF only THEN IsDef(f, j) ELSE Mentions(f, j)) THEN Plus(m, <<files[f].pkg, ScopeOf(f), It(f, j).n>>) ELSE m, f, j + 1, only)
Scan(f) == /\ phase = "scan" /\ f \in todo /\ todo' = todo \ {f}
           /\ occ' = Count(occ, f, 1, FALSE) /\ defs' = Count(defs, f, 1, TRUE)
           /\ extra' = IF ScopeOf(f) \in {"mention", "tests", "inst"} THEN extra \cup {<<files[f].pkg, It(f, j).n>> : j \in {x \in Items(f) : Mentions(f, x)}} ELSE extra
           /\ Const /\ UNCHANGED <<phase, reports>>
Scanned == phase = "scan" /\ todo = {} /\ phase' = "judge" /\ todo' = Files /\ Const /\ UNCHANGED <<occ, defs, extra, reports>>
(* a definition is unused when its name occurs no more often than it is defined *)
Counted(f, j) == LET p == files[f].pkg n == It(f, j).n s == ScopeOf(f) IN
   /\ IsDef(f, j) /\ spaces[p].there /\ n \notin skip /\ Get(occ, <<p, s, n>>) <= Get(defs, <<p, s, n>>)
   /\ s = "R" => /\ ~Exported(p, n) /\ n \notin Hooks /\ <<p, n>> \notin extra
                 /\ \A m \in Prefixes(n) : Get(occ, <<p, "R", m>>) = 0
Judge(f) == /\ phase = "judge" /\ f \in todo /\ todo' = todo \ {f}
            /\ reports' = reports \cup (IF ~Judged(files[f].pkg) THEN {} ELSE
                  {UnusedReport(f, j) : j \in {x \in Items(f) : Counted(f, x) /\ Shown(f, x, "unused")}}
                  \cup {DupReport(f, j) : j \in {x \in Items(f) : Dup(f, x) /\ Shown(f, x, "dup")}})
            /\ Const /\ UNCHANGED <<phase, occ, defs, extra>>
Judgements == phase = "judge" /\ todo = {} /\ phase' = "end" /\ Const /\ UNCHANGED <<todo, occ, defs, extra, reports>>
PNext == (\E f \in todo : Scan(f)) \/ Scanned \/ (\E f \in todo : Judge(f)) \/ Judgements
Ended == phase = "end"

(* -------------------------------------------------------------------- invariants *)
Exact == Ended => reports = Right
(* a report belongs to a definition of a file the run was asked for, in a package *)
Sound == Ended => \A x \in reports : files[x.f].on /\ x.of \in Files /\ Same(x.f, x.of) /\ (x.r = "dup" => ScopeOf(x.of) = "R" /\ ScopeOf(x.f) = "R")
=============================================================================
