--------------------------- MODULE LspServerTrace ---------------------------
(* Recorded sessions: what the editor sent, what it received, how it ended. *)
(* A session is accepted if some behaviour of LspServer explains it.         *)
EXTENDS LspServer, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i
tvars == <<svars, r, i>>
Rec == Recs[r]
TInit == SInit /\ r \in 1..Len(Recs) /\ i = 0
Expected == Len(out') <= Len(Rec.out) /\ (Len(out') > Len(out) => out'[Len(out')] = Rec.out[Len(out')])
TRecv == i < Rec.used /\ Handle(Rec.msgs[i + 1]) /\ i' = i + 1
TNext == (TRecv \/ (Background /\ i' = i)) /\ Expected /\ r' = r
TSpec == TInit /\ [][TNext]_tvars
Done == /\ i = Rec.used /\ jobs = {} /\ Len(out) = Len(Rec.out)
        /\ IF phase = "ended" THEN Rec.end = (IF clean THEN "ok" ELSE "err") ELSE i = Len(Rec.msgs) /\ Rec.end # "crash"
Accepted == Done => PrintT(ToJson([accepted |-> r]))
=============================================================================
