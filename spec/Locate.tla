------------------------------- MODULE Locate -------------------------------
(***************************************************************************)
(* Where a violation is reported.  A source text is a sequence of pieces;   *)
(* each piece is a run of characters, and the pieces marked as violations    *)
(* must be reported at the row and column of their first character: the row  *)
(* is one plus the number of line breaks before it, the column the number of *)
(* characters between the start of its line and it.                          *)
(***************************************************************************)
EXTENDS Text
VARIABLES doc, text, want
lvars == <<doc, text, want>>
Chars(n) == [j \in 1..n |-> "x"]
(* pieces: name -> characters, and whether it is a violation (at which character) *)
Piece(p) ==
  CASE p = "viol"  -> [c |-> Chars(15), v |-> 0]                                   \* any(is.na(x));_
    [] p = "inner" -> [c |-> Chars(17), v |-> 2]                                   \* f(any(is.na(x)))
    [] p = "comm"  -> [c |-> Chars(18) \o <<"nl">>, v |-> 0]                       \* a suppression that hides nothing, a blanket one
    [] p = "s2"    -> [c |-> <<"q", "e2", "q", "semi">>, v |-> -1]
    [] p = "s3"    -> [c |-> <<"q", "e3", "q", "semi">>, v |-> -1]
    [] p = "s4"    -> [c |-> <<"q", "e4", "a", "q", "semi">>, v |-> -1]
    [] p = "multi" -> [c |-> <<"q", "e2", "nl", "e3", "q", "semi">>, v |-> -1]
    [] p = "nl"    -> [c |-> <<"nl">>, v |-> -1]
    [] p = "crlf"  -> [c |-> <<"cr", "nl">>, v |-> -1]
    [] p = "sp"    -> [c |-> <<"sp", "sp">>, v |-> -1]
    [] p = "tab"   -> [c |-> <<"tab">>, v |-> -1]
    [] p = "note"  -> [c |-> <<"h", "sp", "e2", "nl">>, v |-> -1]                  \* an ordinary comment
RowCol(t, k) == LET p == PosOf(t, k, "utf32") IN <<p.line + 1, p.ch>>
LInit == doc = <<>> /\ text = <<>> /\ want = <<>>
Add(p) == LET q == Piece(p) t == text \o q.c IN
          /\ doc' = Append(doc, p) /\ text' = t
          /\ want' = IF q.v >= 0 THEN Append(want, [p |-> p, at |-> RowCol(t, Len(text) + q.v)]) ELSE want
RowsGrow == \A a, b \in 1..Len(want) : a < b => (want[a].at[1] < want[b].at[1] \/ (want[a].at[1] = want[b].at[1] /\ want[a].at[2] < want[b].at[2]))
InText == \A a \in 1..Len(want) : want[a].at[1] \in 1..NumLines(text) /\ want[a].at[2] <= Len(text)
=============================================================================
