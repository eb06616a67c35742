------------------------------- MODULE Threshold -------------------------------
(***************************************************************************)
(* Hiding of unused functions.  Packages with a configuration each, a number   *)
(* of unused functions, names to skip by pattern and a threshold: more reports  *)
(* than that are hidden, unless the rule was selected by name.  A pattern is      *)
(* [from, s, to]: a sequence of letters anywhere in the name, or bound to its      *)
(* start or its end.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES packs, named, k, shown, phase
tvars == <<packs, named, k, shown, phase>>
(* packs: sequence of [funs (set of names), skip (set of patterns), thr (-1: unset), named]; named: by the command line *)
Thr(p) == IF p.thr = -1 THEN 50 ELSE p.thr
At(s, n, j) == j + Len(s) - 1 <= Len(n) /\ \A x \in 1..Len(s) : n[j + x - 1] = s[x]
Hit(q, n) == \E j \in 1..(Len(n) + 1) : At(q.s, n, j) /\ (q.from => j = 1) /\ (q.to => j + Len(q.s) - 1 = Len(n))
Left(p) == {n \in p.funs : \A q \in p.skip : ~Hit(q, n)}
TInit0(p, nm) == packs = p /\ named = nm /\ k = 1 /\ shown = {} /\ phase = "count"
Step == /\ phase = "count" /\ k <= Len(packs)
        /\ LET l == Left(packs[k]) IN
           shown' = IF named \/ packs[k].named \/ Cardinality(l) <= Thr(packs[k]) THEN shown \cup {<<k, n>> : n \in l} ELSE shown
        /\ k' = k + 1 /\ UNCHANGED <<packs, named, phase>>
Stop == phase = "count" /\ k > Len(packs) /\ phase' = "end" /\ UNCHANGED <<packs, named, k, shown>>
TNext == Step \/ Stop
Ended == phase = "end"
(* each package by itself: all or nothing, by its own options *)
Alone == Ended => \A j \in 1..Len(packs) : LET mine == {n \in packs[j].funs : <<j, n>> \in shown} IN
            /\ mine \in {{}, Left(packs[j])}
            /\ (Left(packs[j]) # {} => (mine # {} <=> (named \/ packs[j].named \/ Cardinality(Left(packs[j])) <= Thr(packs[j]))))
===============================================================================
