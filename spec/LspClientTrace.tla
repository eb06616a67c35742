--------------------------- MODULE LspClientTrace ---------------------------
(***************************************************************************)
(* Validates recorded executions (all schedules of the real handle under a  *)
(* controlled scheduler) against LspClient.  Internal steps are inferred.   *)
(***************************************************************************)
EXTENDS LspClient, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<cvars, left, l>>

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ left' = left

TInit == CInit /\ l = 1 /\ left = [t \in Threads |-> 0]

Reset == /\ ctr' = 1 /\ pending' = [i \in {} |-> 0] /\ chan' = <<>> /\ notified' = FALSE
         /\ clock' = 0 /\ pc' = [t \in Threads |-> Idle] /\ got' = [t \in Threads |-> NoRes]
TStart == IsEvent("start") /\ Reset
TCall  == IsEvent("call") /\ Call(Ev.t, [op |-> Ev.op, id |-> Ev.id, tag |-> Ev.tag, at |-> "begin"])
TTick  == IsEvent("tick") /\ Advance(Ev.ms)
TSend  == /\ IsEvent("send")
          /\ \E t \in Threads : Sending(t) /\ chan'[Len(chan')] = [kind |-> Ev.kind, id |-> Ev.id, tag |-> Ev.tag]
TRet   == /\ IsEvent("ret") /\ Return(Ev.t) /\ Ev.ok
          /\ CASE pc[Ev.t].op = "once"    -> Ev.res = (IF got[Ev.t].first THEN 1 ELSE 0)
               [] pc[Ev.t].op = "answer"  -> Ev.warned = (IF got[Ev.t].known THEN 0 ELSE 1)
               [] pc[Ev.t].op = "cleanup" -> Ev.warned = got[Ev.t].dropped
               [] OTHER -> TRUE
TSilent == l <= Len(Trace) /\ l' = l /\ left' = left /\ \E t \in Threads : Silent(t)
TNext == TStart \/ TCall \/ TTick \/ TSend \/ TRet \/ TSilent
TSpec == TInit /\ [][TNext]_tv

Track == TLCSet(1, IF TLCGet(1) > l THEN TLCGet(1) ELSE l)
ASSUME TLCSet(1, 1)
TraceAccepted == \/ TLCGet(1) = Len(Trace) + 1
                 \/ PrintT(ToJson([rejected |-> TLCGet(1)])) /\ FALSE
=============================================================================
