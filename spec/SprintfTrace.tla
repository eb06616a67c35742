----------------------------- MODULE SprintfTrace -----------------------------
(* Recorded calls: the characters of the format, the number of other arguments, *)
(* whether one is `...`; what was reported, and the text a fix leaves.          *)
EXTENDS Sprintf, Json, IOUtils, TLC
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TSpec == l \in 1..Len(Rec) /\ fmt = <<>> /\ st = Start /\ [][FALSE]_<<l, fmt, st>>
Ok == LET r == Rec[l] s == Run(Start, r.f) IN
      s.odd \/ (r.v = Verdict(s, r.n, r.dots) /\ (r.v = "constant" => r.lit = s.lit))
Accepted == Ok \/ PrintT(ToJson([rejected |-> l, v |-> Verdict(Run(Start, Rec[l].f), Rec[l].n, Rec[l].dots), lit |-> Run(Start, Rec[l].f).lit]))
=============================================================================
