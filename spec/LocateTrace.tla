---------------------------- MODULE LocateTrace ----------------------------
(* Recorded reports: the text (as characters), the character at which the    *)
(* reported source range starts, and the locations every output printed.     *)
EXTENDS Text, Sequences, Json, IOUtils, TLC
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TSpec == l \in 1..Len(Rec) /\ [][FALSE]_l
Where(t, k) == LET p == PosOf(t, k, "utf32") IN <<p.line + 1, p.ch>>
At(r, w) == r.api = w /\ \A x \in DOMAIN r.shown : r.shown[x] = <<w[1], w[2] + 1>>
Ok == LET r == Rec[l] IN At(r, Where(r.t, r.k))
(* the listed finding: in a text that starts with a line break, columns of the *)
(* second line are one too large                                               *)
Shape == LET r == Rec[l] w == Where(r.t, r.k) IN
         IF r.t[1] = "nl" /\ w[1] = 2 /\ r.api = <<2, w[2] + 1>>
            /\ \A x \in DOMAIN r.shown : r.shown[x] = IF x = "full" THEN <<2, w[2] + 1>> ELSE <<2, w[2] + 2>> THEN "leading-newline-row-2" ELSE "other"
Accepted == Ok \/ PrintT(ToJson([rejected |-> l, shape |-> Shape]))
=============================================================================
