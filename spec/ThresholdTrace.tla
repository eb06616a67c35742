----------------------------- MODULE ThresholdTrace -----------------------------
EXTENDS Threshold, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[x] : x \in 1..Len(q)}
P(p) == [funs |-> S(p.funs), skip |-> S(p.skip), thr |-> p.thr, named |-> p.named]
TInit == \E x \in 1..Len(Recs) : i = x /\ TInit0([j \in 1..Len(Recs[x].packs) |-> P(Recs[x].packs[j])], Recs[x].named)
TSpec == TInit /\ [][TNext /\ UNCHANGED i]_<<tvars, i>>
Right == S(Recs[i].shown) = shown
Accepted == Ended => ((Right /\ Alone) \/ PrintT(ToJson([rejected |-> i])))
===============================================================================
