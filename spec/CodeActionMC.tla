---------------------------- MODULE CodeActionMC ----------------------------
(* All documents of one or two chunks over small programs, and every sequence of  *)
(* asking for edits.                                                               *)
EXTENDS CodeAction, Json
CONSTANTS Leaves, Kinds, Depth, Fill, Docs
RECURSIVE Terms(_)
Terms(d) == IF d = 0 THEN {<<l>> : l \in Leaves}
            ELSE {<<l>> : l \in Leaves} \cup
                 {<<k, t>> : k \in {k \in Kinds : Arity(k) = 1}, t \in Terms(d - 1)} \cup
                 {<<k, t, u>> : k \in {k \in Kinds : Arity(k) = 2}, t \in Terms(d - 1), u \in Fill} \cup
                 {<<k, t, u>> : k \in {k \in Kinds : Arity(k) = 2}, t \in Fill, u \in Terms(d - 1)}
Programs == {<<"prog1", t>> : t \in Terms(Depth)} \cup {<<"prog2", u, t>> : u \in Fill, t \in Terms(Depth)} \cup {<<"stop2", u, t>> : u \in Fill, t \in Fill}
Few == {<<"prog1", t>> : t \in Fill} \cup {<<"prog2", u, t>> : u \in Fill, t \in Fill}
Documents == (IF "doc1" \in Docs THEN {<<"doc1", p>> : p \in Programs} ELSE {})
             \cup (IF "doc2" \in Docs THEN {<<"doc2", p, u>> : p \in Programs, u \in Few} \cup {<<"doc2", u, p>> : p \in Programs, u \in Few} ELSE {})
MInit == AInit(Documents)
Spec == MInit /\ [][ANext]_avars
GenSpec == MInit /\ [][FALSE]_avars
Emit == ~Asked => PrintT(ToJson([prog |-> prog, toks |-> flat.toks, starts |-> Starts, viols |-> flat.viols]))
=============================================================================
