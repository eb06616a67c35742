-------------------------- MODULE DescriptionTrace --------------------------
EXTENDS Description, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, todo
TInit == DInit /\ l \in 1..Len(Rec) /\ todo = SplitOn(Rec[l].t, "nl")
TNext == /\ todo # <<>> /\ l' = l /\ todo' = Tail(todo) /\ Line(todo[1])
TSpec == TInit /\ [][TNext]_<<dvars, l, todo>>
Ok == todo = <<>> => LET v == Versions(Final) IN ~v.ok \/ v.v = Rec[l].r
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
