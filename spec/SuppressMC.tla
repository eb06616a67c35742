----------------------------- MODULE SuppressMC -----------------------------
EXTENDS Suppress, Json, TLC
CONSTANTS Lines, MaxLines
Next == Len(doc) < MaxLines /\ \E x \in Lines : Read(x)
Spec == SInit /\ [][Next]_svars
Set2Seq(S) == S
Emit == (Complete /\ doc # <<>>) =>
  PrintT(ToJson([d |-> [i \in 1..Len(doc) |-> <<doc[i].k, doc[i].r, doc[i].t>>],
                 viols |-> [a \in 1..Len(viols) |-> [line |-> viols[a].line, sure |-> {i : i \in Sure(viols[a])}, cov |-> Cov(viols[a])]],
                 sups |-> [i \in 1..Len(Sups) |-> Sups[i].line],
                 defects |-> Defects]))
=============================================================================
