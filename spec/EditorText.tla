------------------------------ MODULE EditorText ------------------------------
(* Recorded files with any content: the problems of the command line as ranges of   *)
(* bytes (`cli`), those of the editor as ranges of positions (`ed`), for the same     *)
(* text.  Each problem is published once, at the positions of its range; a text that    *)
(* does not parse has none.                                                    *)
EXTENDS Text, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1..Len(Recs)
Spec == Init /\ [][FALSE]_i
R == Recs[i]
RECURSIVE Marks(_, _, _, _)
(* byte offset -> position, walking over the text once *)
Marks(t, k, acc, p) == LET a2 == Append(acc, p) IN
  IF k > Len(t) THEN a2
  ELSE LET q == IF t[k] = "nl" THEN [line |-> p.line + 1, ch |-> 0] ELSE [p EXCEPT !.ch = @ + Units(t[k], R.enc)]
           inner == [j \in 1..(U8(t[k]) - 1) |-> [line |-> -1, ch |-> j]] IN Marks(t, k + 1, a2 \o inner, q)
Bag(q) == [v \in {q[j] : j \in 1..Len(q)} |-> Cardinality({j \in 1..Len(q) : q[j] = v})]
Right == IF ~R.parses THEN R.ed = <<>>
         ELSE LET m == TLCEval(Marks(R.text, 1, <<>>, [line |-> 0, ch |-> 0]))
                  want == [j \in 1..Len(R.cli) |-> [n |-> R.cli[j].n, m |-> R.cli[j].m, s |-> m[R.cli[j].s + 1], e |-> m[R.cli[j].e + 1]]] IN
              Bag(want) = Bag(R.ed)
Accepted == Right \/ PrintT(ToJson([rejected |-> i]))
===============================================================================
