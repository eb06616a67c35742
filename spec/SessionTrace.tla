---------------------------- MODULE SessionTrace ----------------------------
(* Recorded: [world, ops, broken, stuck] and what the extension did: [log, answers, status] *)
EXTENDS Session, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Of(x) == {x[k] : k \in 1..Len(x)}
TInit == \E k \in 1..Len(Recs) : i = k /\ SInit(Recs[k].world, Recs[k].ops, Of(Recs[k].broken), Of(Recs[k].stuck))
TSpec == TInit /\ [][Serve /\ UNCHANGED i]_<<svars, i>>
Accepted == queue = <<>> => ((log = Recs[i].log /\ answers = Recs[i].answers /\ status = Recs[i].status) \/ PrintT(ToJson([rejected |-> i])))
=============================================================================
