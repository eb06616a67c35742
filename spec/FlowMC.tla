------------------------------- MODULE FlowMC -------------------------------
(* All programs of an alphabet of statements, nested to a depth.               *)
EXTENDS Flow, Json, TLC
CONSTANTS Atoms, Conds, Kinds, Lens, Depth, Emits
(* Lens[d]: how long sequences are at nesting depth d (1: innermost) *)
At(k) == [k |-> k, c |-> <<"x">>, b |-> <<>>]
RECURSIVE Stmts(_), Seqs(_)
Seqs(d) == UNION {[1..m -> Stmts(d)] : m \in 0..Lens[d]}
Stmts(d) == LET flat == {At(a) : a \in Atoms} IN
   IF d = 1 THEN flat
   ELSE LET in == Seqs(d - 1) IN flat
        \cup (IF "if" \in Kinds THEN {[k |-> "if", c |-> c, b |-> b] : c \in Conds, b \in {<<x>> : x \in in} \cup {<<x, y>> : x \in in, y \in in}} ELSE {})
        \cup {[k |-> kk, c |-> <<"x">>, b |-> <<x>>] : kk \in Kinds \ {"if"}, x \in in}
Init == \E pr \in Seqs(Depth) : FInit(pr)
Spec == Init /\ [][FNext]_fvars
Emit == Ended /\ Emits => PrintT(ToJson([prog |-> prog, want |-> Reports, dead |-> AllDead]))
=============================================================================
