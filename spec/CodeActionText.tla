--------------------------- MODULE CodeActionText ---------------------------
(* Recorded edits in files with any content, next to the command line's reports    *)
(* for the same text (ranges in bytes).  An edit [s, e, new] replaces the text between two     *)
(* positions.  The edit of a fix stands at the range of the fix; an edit that ignores       *)
(* a problem inserts, and what is reported afterwards is what was reported before,    *)
(* moved, without the problem and at most others of the same rule.                    *)
EXTENDS Text, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i \in 1..Len(Recs)
Spec == Init /\ [][FALSE]_i
R == Recs[i]
RECURSIVE Marks(_, _, _, _)
(* byte offset -> position, walking over the text once *)
Marks(t, k, acc, p) == LET a2 == Append(acc, p) IN
  IF k > Len(t) THEN a2
  ELSE LET q == IF t[k] = "nl" THEN [line |-> p.line + 1, ch |-> 0] ELSE [p EXCEPT !.ch = @ + Units(t[k], R.enc)]
           inner == [j \in 1..(U8(t[k]) - 1) |-> [line |-> -1, ch |-> j]] IN Marks(t, k + 1, a2 \o inner, q)
M == TLCEval(Marks(R.text, 1, <<>>, [line |-> 0, ch |-> 0]))
Range(q) == {q[j] : j \in 1..Len(q)}
Count(q, v) == Cardinality({j \in 1..Len(q) : q[j] = v})
Before(p, q) == p.line < q.line \/ (p.line = q.line /\ p.ch < q.ch)
(* what happens to a range when n bytes come in at byte k *)
Moved(d, k, n) == [d EXCEPT !.s = IF @ >= k THEN @ + n ELSE @, !.e = IF @ > k THEN @ + n ELSE @]
Fix == LET m == M IN /\ R.has                                             \* the engine has a fix, too
                     /\ m[R.fs + 1] = R.s /\ m[R.fe + 1] = R.e /\ R.same
(* a comment that was there may have become superfluous, but not the new one *)
Stale(d) == d.n = "outdated_suppression" /\ ~(R.at <= d.s /\ d.s < R.at + R.n)
Ignore == LET m == M was == [j \in 1..Len(R.before) |-> Moved(R.before[j], R.at, R.n)]
              asked == Moved(R.asked, R.at, R.n) IN
          /\ R.s = R.e /\ m[R.at + 1] = R.s                                \* nothing is removed
          /\ asked \in Range(was) /\ asked \notin Range(R.after)
          /\ \A d \in Range(R.after) \ Range(was) : Stale(d)
          /\ \A d \in Range(was) : IF d.n = asked.n /\ d \notin Range(R.after) THEN TRUE ELSE Count(R.after, d) = Count(was, d)
          /\ R.form                                                         \* the text is one comment of that rule and white space
(* asking for a range of the text: everything offered touches it, everything in it is offered *)
Ask == /\ \A d \in Range(R.got) : d \in Range(R.can) /\ ~Before(d.e, R.s) /\ ~Before(R.e, d.s)
       /\ \A d \in Range(R.can) : (Before(d.s, R.e) /\ Before(R.s, d.e)) => d \in Range(R.got)
(* each fix of the engine is offered *)
Fixes == Range(R.fixes) = Range(R.offered)
Right == CASE R.what = "fix" -> Fix [] R.what = "ignore" -> Ignore [] R.what = "ask" -> Ask [] R.what = "fixes" -> Fixes
Accepted == Right \/ PrintT(ToJson([rejected |-> i]))
=============================================================================
