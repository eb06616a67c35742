---------------------------- MODULE ChunkMapTrace ----------------------------
(* Recorded notebooks: byte lengths of the lines, which chunk each belongs to *)
(* (0: none), what linting each chunk's code alone as an R file reported       *)
(* (rule, first byte, end), and what linting the notebook reported.            *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TSpec == l \in 1..Len(Rec) /\ [][FALSE]_l
R == Rec[l]
RECURSIVE Off(_)
Off(i) == IF i = 0 THEN 0 ELSE Off(i - 1) + R.n[i]
StartOf(c) == LET i == CHOOSE i \in 1..Len(R.c) : R.c[i] = c /\ \A j \in 1..(i - 1) : R.c[j] # c IN Off(i - 1)
Range(s) == {s[i] : i \in 1..Len(s)}
Shifted == UNION {{<<x[1], StartOf(R.local[c].c) + x[2], StartOf(R.local[c].c) + x[3]>> : x \in Range(R.local[c].v)} : c \in 1..Len(R.local)}
Ok == Range(R.global) = Shifted /\ Len(R.global) = Cardinality(Range(R.global))
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
