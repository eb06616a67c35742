------------------------------ MODULE FlowTrace ------------------------------
(* Recorded reports for random programs.                                      *)
EXTENDS Flow, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
R == Recs[i]
TInit == \E k \in 1..Len(Recs) : i = k /\ FInit(Recs[k].prog)
TNext == FNext /\ UNCHANGED i
TSpec == TInit /\ [][TNext]_<<fvars, i>>
Good == Len(R.got) = Cardinality(S(R.got)) /\ S(R.got) = Reports
Accepted == (Ended => Good /\ Exact) \/ PrintT(ToJson([rejected |-> i, missing |-> Reports \ S(R.got), extra |-> S(R.got) \ Reports]))
=============================================================================
