----------------------------- MODULE PackageTrace -----------------------------
(* Recorded runs: every report with its place and the place it points to.      *)
EXTENDS Package, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
R == Recs[i]
TInit == \E k \in 1..Len(Recs) : i = k /\ PInit(Recs[k].files, Recs[k].spaces, S(Recs[k].sel), S(Recs[k].skip))
TNext == UNCHANGED <<pvars, i>>
TSpec == TInit /\ [][TNext]_<<pvars, i>>
(* no file twice, every report once *)
Good == /\ Len(R.got) = Cardinality(S(R.got)) /\ S(R.got) = Right
Accepted == Good \/ PrintT(ToJson([rejected |-> i, missing |-> Right \ S(R.got), extra |-> S(R.got) \ Right]))
=============================================================================
