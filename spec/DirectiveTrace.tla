--------------------------- MODULE DirectiveTrace ---------------------------
(* Recorded classifications of concrete comments, one per record. *)
EXTENDS Directive, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l \in 1..Len(Rec)
TNext == FALSE /\ l' = l
TSpec == TInit /\ [][TNext]_l
Ok == /\ Rec[l].comment \in Comment(Rec[l].t)
      /\ Rec[l].item \in Item(Rec[l].t)
      /\ Rec[l].header \in Header(Rec[l].t)
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
