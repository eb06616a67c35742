----------------------------- MODULE OptionsTrace -----------------------------
(* Recorded runs with random options: failed or not, and what was reported.       *)
EXTENDS Options, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
O(x) == [set |-> x.set, names |-> S(x.names)]
TInit == \E k \in 1..Len(Recs) : i = k /\ OInit([r \in Rules |-> O(Recs[k].base[r])], [r \in Rules |-> O(Recs[k].ext[r])], Recs[k].oper, Recs[k].cli, S(Recs[k].calls))
TSpec == TInit /\ [][ONext /\ UNCHANGED i]_<<ovars, i>>
R == Recs[i]
Right == IF R.failed THEN Fails /\ (R.named # <<>> => S(R.named) \subseteq Conflicts \cup (IF Invalid THEN {"assignment"} ELSE {}))
         ELSE ~Fails /\ S(R.reports) = Reports /\ S(R.assigns) = Assigns
Accepted == Ended => ((Right /\ Documented) \/ PrintT(ToJson([rejected |-> i])))
===============================================================================
