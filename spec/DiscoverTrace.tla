----------------------------- MODULE DiscoverTrace -----------------------------
(* Recorded runs over random trees: the files that were checked.                  *)
EXTENDS Discover, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
C(c) == [on |-> c.on, excl |-> S(c.excl), incl |-> S(c.incl), def |-> c.def]
TInit == \E k \in 1..Len(Recs) : i = k /\ DInit(Recs[k].tree, Recs[k].dname, Recs[k].files, [d \in 1..Len(Recs[k].tree) |-> C(Recs[k].cfg[d])], Recs[k].nodef, S(Recs[k].args))
TSpec == TInit /\ [][(VisitOne \/ Filter) /\ UNCHANGED i]_<<dvars, i>>
Right == Must \subseteq S(Recs[i].checked) /\ S(Recs[i].checked) \subseteq May
Accepted == Ended => ((Right /\ Exactly) \/ PrintT(ToJson([rejected |-> i])))
===============================================================================
