-------------------------------- MODULE Editor --------------------------------
(***************************************************************************)
(* The two front ends on one project.  The project is that of Discover (a     *)
(* tree of directories with files and configurations) with packages, versions   *)
(* of R, rules selected by each configuration and a user-level configuration     *)
(* (directory 0).  Files hold items: code that a rule reports, definitions and    *)
(* uses of functions, each perhaps below an ignore comment (`hush`) and behind     *)
(* other text on its line (`pre`).                                             *)
(*                                                                         *)
(* First the command line walks over the whole project (Discover) and reports;    *)
(* then the editor opens one file after the other: it climbs up from the file to   *)
(* the configuration, tests whether the file is excluded below it, and publishes.   *)
(* The two must agree on every file.                                         *)
(***************************************************************************)
EXTENDS Discover
VARIABLES x, at, out
evars == <<dvars, x, at, out>>
T == INSTANCE Text
(* x: [pkg (directories with a package), ver (version of R they need, 0: none),      *)
(*     user, sel, thr (by configuration, from 0), items (of each file)]               *)
(* item: [r, n, hush, pre]; r: a rule, "fun" or "use" of the function n                *)
Usual == {"any_is_na", "class_equals", "list2df"}
Chosen(s) == CASE s \in {"all", "named"} -> Usual \cup {"fun"} [] s = "na" -> {"any_is_na"} [] s = "notna" -> Usual \ {"any_is_na"} [] OTHER -> Usual
SelOf(g) == IF g = -1 THEN "default" ELSE x.sel[g + 1]
ThrOf(g) == IF g = -1 \/ x.thr[g + 1] = -1 THEN 50 ELSE x.thr[g + 1]
G(f) == LET g == GovOf(files[f].d) IN IF g # 0 THEN g ELSE IF x.user THEN 0 ELSE -1
RECURSIVE PkgOf(_)
PkgOf(d) == IF d = 0 \/ d \in x.pkg THEN d ELSE PkgOf(tree[d])
P(f) == PkgOf(files[f].d)
Version(f) == IF P(f) = 0 THEN 0 ELSE x.ver[P(f)]
InR(f) == dname[files[f].d] = Name("R", "") /\ tree[files[f].d] \in x.pkg /\ files[f].e \in {"R", "r"}
Used(p, n) == \E f \in Fs : InR(f) /\ P(f) = p /\ \E k \in 1..Len(x.items[f]) : x.items[f][k].r = "use" /\ x.items[f][k].n = n
(* what is found in a file under the configuration g, by position in the file *)
Raw(f, g) == {k \in 1..Len(x.items[f]) : LET i == x.items[f][k] IN
                /\ ~i.hush /\ i.r \in Chosen(SelOf(g))
                /\ (i.r = "list2df" => Version(f) >= 400)
                /\ (i.r = "fun" => InR(f) /\ ~Used(P(f), i.n))}
Funs(f, K) == {k \in K : x.items[f][k].r = "fun"}
RECURSIVE Total(_, _)
Total(S, g) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN Cardinality(Funs(f, Raw(f, g))) + Total(S \ {f}, g)
Hide(f, g, n) == IF SelOf(g) = "named" \/ n <= ThrOf(g) THEN Raw(f, g) ELSE Raw(f, g) \ Funs(f, Raw(f, g))

(* the command line: what it reports when the walk is over *)
Cli(f) == IF f \notin kept THEN {} ELSE Hide(f, G(f), Total({h \in kept : G(h) = G(f)}, G(f)))

(* the editor *)
Idle == [f |-> 0, d |-> 0]
EInit(t, n, fs, c, w) == /\ DInit(t, n, fs, c, FALSE, {[k |-> "dir", x |-> 1]})
                         /\ x = w /\ at = Idle /\ out = [f \in 1..Len(fs) |-> <<"closed", {}>>]
Walk == (VisitOne \/ Filter) /\ UNCHANGED <<x, at, out>>
Open(f) == Ended /\ at = Idle /\ out[f][1] = "closed" /\ at' = [f |-> f, d |-> files[f].d] /\ UNCHANGED <<dvars, x, out>>
Climb == at # Idle /\ at.d # 0 /\ ~cfg[at.d].on /\ at' = [at EXCEPT !.d = tree[at.d]] /\ UNCHANGED <<dvars, x, out>>
EdExcluded(f, g) == LET e == [k |-> "file", x |-> f]
                        own == IF g > 0 THEN cfg[g] ELSE [excl |-> {}, incl |-> {}, def |-> TRUE] IN
                    \/ Hit(own.excl, g, e)
                    \/ own.def /\ \E c \in Chain(g, e) : \E p \in Defaults : Matches(p, <<NameOf(c)>>, c.k = "dir")
                    \/ own.incl # {} /\ ~Hit(own.incl, g, e)
EdReport(f, g) == IF EdExcluded(f, IF g > 0 THEN g ELSE 0) THEN {} ELSE Hide(f, g, Total({h \in kept \cup {f} : G(h) = g /\ P(h) = P(f)}, g))
Lint == /\ at # Idle /\ (IF at.d = 0 THEN TRUE ELSE cfg[at.d].on)
        /\ LET g == IF at.d # 0 THEN at.d ELSE IF x.user THEN 0 ELSE -1 IN out' = [out EXCEPT ![at.f] = <<"open", EdReport(at.f, g)>>]
        /\ at' = Idle /\ UNCHANGED <<dvars, x>>
OpenNext == LET c == {f \in Fs : out[f][1] = "closed"} IN c # {} /\ Open(CHOOSE f \in c : TRUE)
ENext == Walk \/ OpenNext \/ Climb \/ Lint
Done == Ended /\ \A f \in Fs : out[f][1] = "open"

(* left open: files that the walk skips for other reasons than the configuration that governs them *)
Apart(f) == LET e == [k |-> "file", x |-> f]
                g == GovOf(files[f].d) IN
            \/ files[f].e \notin Lints
            \/ \E b \in Up(e) : ~Top(b) /\ Hidden(b)
            \/ \E b \in Up(e) \ Chain(g, e) : ~Top(b) /\ Excluded(b)
(* and the count of unused functions when one configuration governs several packages *)
Pooled(f) == \E h \in Fs : P(h) # P(f) /\ G(h) = G(f) /\ Funs(h, Raw(h, G(f))) # {}
But(f, K) == IF Pooled(f) THEN K \ Funs(f, 1..Len(x.items[f])) ELSE K
Agree(f, a, b) == Apart(f) \/ But(f, a) = But(f, b)
Same == Done => \A f \in Fs : Agree(f, Cli(f), out[f][2])

(* where an item stands *)
Span(r) == CASE r = "any_is_na" -> <<0, 13>> [] r = "class_equals" -> <<4, 17>> [] r = "list2df" -> <<0, 28>> [] OTHER -> <<0, 3>>
RECURSIVE Above(_, _)
Above(f, k) == IF k = 0 THEN 0 ELSE 1 + (IF x.items[f][k].hush THEN 1 ELSE 0) + Above(f, k - 1)
Place(f, k, enc) == LET i == x.items[f][k]
                        s == Span(i.r)[1] + (IF i.pre = <<>> THEN 0 ELSE T!Width(i.pre, enc) + 4) IN
                    [r |-> i.r, l |-> (IF files[f].e \in {"R", "r"} THEN 0 ELSE 3) + Above(f, k - 1) + (IF i.hush THEN 1 ELSE 0), s |-> s, e |-> s + Span(i.r)[2]]
===============================================================================
