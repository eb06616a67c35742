----------------------------- MODULE SelectTrace -----------------------------
(* Recorded requests: the rules build_config made active, or its refusal. *)
EXTENDS Select, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
AsSet(s) == {s[k] : k \in 1..Len(s)}
Req(k) == [Recs[k].r EXCEPT !.desc = AsSet(Recs[k].r.desc)]
TInit == \E k \in 1..Len(Recs) : i = k /\ SInit(Req(k))
Right == failed = Recs[i].failed /\ (failed \/ active = AsSet(Recs[i].active))
TSpec == TInit /\ [][SNext /\ UNCHANGED i]_<<svars, i>>
Accepted == Finished => (Right \/ PrintT(ToJson([rejected |-> i])))
=============================================================================
