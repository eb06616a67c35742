------------------------------ MODULE ConfigTrace ------------------------------
(* Recorded runs over random trees: whether the run failed, which file it named,  *)
(* and the configuration each file was checked under.                            *)
EXTENDS Config, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
TInit == \E k \in 1..Len(Recs) : i = k /\ CInit(Recs[k].tree, (0 :> Recs[k].user) @@ [d \in 1..Len(Recs[k].tree) |-> Recs[k].cfg[d]], S(Recs[k].has), S(Recs[k].args))
TSpec == TInit /\ [][CNext /\ UNCHANGED i]_<<cvars, i>>
R == Recs[i]
Right == IF R.failed THEN MayFail /\ R.named # <<>> /\ \A k \in 1..Len(R.named) : Malformed(R.named[k])
         ELSE ~MustFail /\ S(R.gov) = {<<d, Gov(d), Which(Gov(d))>> : d \in Asked}
Accepted == Ended => ((Right /\ Nearest /\ NotIgnored) \/ PrintT(ToJson([rejected |-> i])))
===============================================================================
