------------------------------- MODULE VcsTrace -------------------------------
(* Recorded runs over random trees: what was written and how the run ended.    *)
EXTENDS Vcs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
TInit == \E k \in 1..Len(Recs) : i = k /\ VInit(Recs[k].tree, S(Recs[k].repos), Recs[k].file, Recs[k].other, S(Recs[k].viol), S(Recs[k].req), Recs[k].opts)
TSpec == TInit /\ [][VNext /\ UNCHANGED i]_<<vvars, i>>
Right == S(Recs[i].written) = written /\ Recs[i].outcome = outcome
Accepted == Ended => ((Right /\ AllOrNothing) \/ PrintT(ToJson([rejected |-> i])))
=============================================================================
