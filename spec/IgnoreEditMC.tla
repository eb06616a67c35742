----------------------------- MODULE IgnoreEditMC -----------------------------
(* All programs of the given kinds: prog(s) of terms up to a depth.           *)
EXTENDS IgnoreEdit, Json, TLC
CONSTANTS Leaves, Kinds, Depth, Progs, Fill
RECURSIVE Terms(_)
Terms(d) == IF d = 0 THEN {<<l>> : l \in Leaves}
            ELSE {<<l>> : l \in Leaves} \cup
                 {<<k, t>> : k \in {k \in Kinds : Arity(k) = 1}, t \in Terms(d - 1)} \cup
                 {<<k, t, u>> : k \in {k \in Kinds : Arity(k) = 2}, t \in Terms(d - 1), u \in Fill} \cup
                 {<<k, t, u>> : k \in {k \in Kinds : Arity(k) = 2}, t \in Fill, u \in Terms(d - 1)}
Programs == {<<"prog1", t>> : t \in IF "prog1" \in Progs THEN Terms(Depth) ELSE {}} \cup
            {<<"prog2", u, t>> : u \in Fill, t \in IF "prog2" \in Progs THEN Terms(Depth) ELSE {}} \cup
            {<<"stop2", u, t>> : u \in Fill, t \in IF "stop2" \in Progs THEN Terms(Depth) ELSE {}}
MInit == \E t \in Programs : IInit(t)
Spec == MInit /\ [][INext]_ivars
GenSpec == MInit /\ [][FALSE]_ivars
Emit == (cs = {}) => PrintT(ToJson([prog |-> prog, toks |-> flat.toks, starts |-> Starts, viols |-> flat.viols]))
===============================================================================
