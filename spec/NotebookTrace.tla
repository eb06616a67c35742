---------------------------- MODULE NotebookTrace ----------------------------
(* Recorded extractions: each record is a document and the chunks the code found. *)
EXTENDS Notebook, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
LineOf(t) == CHOOSE x \in [k : {"r", "ropt", "rbr", "other", "disp", "cls", "gap", "noend", "mid", "tilde", "tfence", "fence", "fencex", "text", "blank"}, n : 0..9] :
               x.k \o ToString(x.n) = t
TInit == NInit /\ l \in 1..Len(Rec)
TNext == /\ Len(doc) < Len(Rec[l].t) /\ l' = l
         /\ Read(LineOf(Rec[l].t[Len(doc) + 1]))
TSpec == TInit /\ [][TNext]_<<nvars, l>>
Ok == Len(doc) = Len(Rec[l].t) => chunks = Rec[l].r
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
