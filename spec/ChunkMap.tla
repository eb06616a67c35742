------------------------------ MODULE ChunkMap ------------------------------
(***************************************************************************)
(* Violations in notebooks.  A notebook is a sequence of lines; each has a    *)
(* number of bytes (without its line end, which takes Eol bytes).  Code lines *)
(* stand for themselves only inside R chunks that are closed and parse; a     *)
(* violation in them is reported at its bytes in the notebook.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES doc, eol, pos, mode, start, broken, pend, here, want
cvars == <<doc, eol, pos, mode, start, broken, pend, here, want>>
(* bytes of a line, and the violation in it: first byte and length (-1: none) *)
Line(p) ==
  CASE p = "prose"  -> [n |-> 12, s |-> -1, k |-> 0]
    [] p = "blank"  -> [n |-> 0,  s |-> -1, k |-> 0]
    [] p = "open"   -> [n |-> 6,  s |-> -1, k |-> 0]
    [] p = "iopen"  -> [n |-> 13, s |-> -1, k |-> 0]
    [] p = "other"  -> [n |-> 11, s |-> -1, k |-> 0]
    [] p = "close"  -> [n |-> 3,  s |-> -1, k |-> 0]
    [] p = "viol"   -> [n |-> 13, s |-> 0,  k |-> 13]
    [] p = "mb"     -> [n |-> 22, s |-> 9,  k |-> 13]
    [] p = "in"     -> [n |-> 18, s |-> 4,  k |-> 13]
    [] p = "multi"  -> [n |-> 15 + 2 * eol, s |-> 0, k |-> 15 + 2 * eol]     \* three lines
    [] p = "ok"     -> [n |-> 6,  s |-> -1, k |-> 0]
    [] p = "sup"    -> [n |-> 26, s |-> -1, k |-> 0]
    [] p = "broken" -> [n |-> 6,  s |-> -1, k |-> 0]
Fences == {"open", "iopen", "other", "close"}
CInit == /\ doc = <<>> /\ eol \in {1, 2} /\ pos = 0 /\ mode = "text" /\ start = 0
         /\ broken = FALSE /\ pend = FALSE /\ here = <<>> /\ want = <<>>
(* in R chunks, offsets of violations are first counted from the start of the chunk, as the linter sees it *)
Add(p) ==
  LET q == Line(p) IN
  /\ (mode = "text") => p # "close"
  /\ (mode # "text") => p \notin {"open", "iopen", "other"}
  /\ (p = "close") => ~pend
  /\ doc' = Append(doc, p) /\ UNCHANGED eol /\ pos' = pos + q.n + eol
  /\ mode' = CASE p \in {"open", "iopen"} -> "r" [] p = "other" -> "other" [] p = "close" -> "text" [] OTHER -> mode
  /\ start' = IF p \in {"open", "iopen"} THEN pos' ELSE start
  /\ IF mode = "r" /\ p # "close" THEN
        /\ broken' = (broken \/ p \in {"broken", "prose"})
        /\ pend' = (p = "sup" \/ (pend /\ p = "blank"))
        /\ here' = IF q.s >= 0 /\ ~(pend /\ p # "mb") THEN Append(here, <<pos - start + q.s, q.k>>) ELSE here
        /\ UNCHANGED want
     ELSE /\ broken' = FALSE /\ pend' = FALSE /\ here' = <<>>
          /\ want' = IF mode = "r" /\ ~broken THEN want \o [i \in 1..Len(here) |-> <<start + here[i][1], start + here[i][1] + here[i][2]>>] ELSE want
(* the same violations, by adding up the lines before them *)
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE Before(i - 1) + Line(doc[i]).n + eol
Stands == \A a \in 1..Len(want) : \E i \in 1..Len(doc) : Line(doc[i]).s >= 0 /\ want[a] = <<Before(i - 1) + Line(doc[i]).s, Before(i - 1) + Line(doc[i]).s + Line(doc[i]).k>>
InOrder == \A a, b \in 1..Len(want) : a < b => want[a][2] <= want[b][1]
Position == pos = Before(Len(doc))
=============================================================================
