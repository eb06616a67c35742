------------------------------ MODULE FixModeMC ------------------------------
EXTENDS FixMode, Json
CONSTANTS Stmts, MaxLen, Actives, Fixables, Unfixables
Flags == {f \in [fix : BOOLEAN, unsafe : BOOLEAN, only : BOOLEAN] : TRUE}
Seqs == UNION {[1..n -> Stmts] : n \in 1..MaxLen}
Init == \E o \in Flags, a \in Actives, f \in Fixables, u \in Unfixables, s \in Seqs, k \in {"R", "Rmd"} :
          FInit([fix |-> o.fix, unsafe |-> o.unsafe, only |-> o.only, active |-> a, fixable |-> f, unfixable |-> u], [kind |-> k, s |-> s])
Spec == Init /\ [][FNext]_fvars
Vec == [o |-> [fix |-> opt.fix, unsafe |-> opt.unsafe, only |-> opt.only, fixable |-> opt.fixable, unfixable |-> opt.unfixable, active |-> opt.active],
        k |-> file.kind, s |-> [i \in 1..Len(file.s) |-> file.s[i].n], refused |-> phase = "refused",
        new |-> [i \in 1..Len(file.s) |-> text[i] = "new"], shown |-> [i \in 1..Len(file.s) |-> i \in shown]]
Emit == Ended => PrintT(ToJson(Vec))
=============================================================================
