--------------------------- MODULE CodeActionTrace ---------------------------
(* Recorded edits: a document with some comments in it, what is reported in it,   *)
(* the problem for which an edit was offered, the comments after the edit and        *)
(* what is reported then.  The edit stands at a position of the text: `at` is the       *)
(* character boundary it was applied at.                                          *)
EXTENDS CodeAction, Text, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Range(q) == {q[x] : x \in 1..Len(q)}
Com(q) == {[at |-> c[1], r |-> c[2]] : c \in Range(q)}
Cks(q) == {[c |-> c[1], r |-> c[2]] : c \in Range(q)}
TInit == \E x \in 1..Len(Recs) : /\ i = x /\ prog = Recs[x].prog /\ cs = Com(Recs[x].comments) /\ ck = Cks(Recs[x].chunks) /\ last = [what |-> "opened"]
                                 /\ LET f == Flat(Recs[x].prog, 1) IN       \* what is reported without any comment is what there is to hide
                                    flat = [f EXCEPT !.viols = {v \in f.viols : <<v.r, v.lo>> \in Range(Recs[x].all)}]
TSpec == TInit /\ [][FALSE]_<<avars, i>>
R == Recs[i]
Names(V) == {<<v.r, v.lo>> : v \in V}
RECURSIVE Walk(_, _, _)
(* the position of a character boundary, walking there once *)
Walk(t, k, p) == IF k > R.at THEN p ELSE Walk(t, k + 1, IF t[k] = "nl" THEN [line |-> p.line + 1, ch |-> 0] ELSE [p EXCEPT !.ch = @ + Units(t[k], R.enc)])
Placed == TLCEval(Walk(R.text, 1, [line |-> 0, ch |-> 0])) = R.pos
Offered(v) == LET C == Com(R.newcomments) K == Cks(R.newchunks) IN
  /\ Len(R.newcomments) + Len(R.newchunks) = Len(R.comments) + Len(R.chunks) + 1
  /\ IF R.what = "here" THEN K = ck /\ \E a \in Starts : Here(v, [at |-> a, r |-> v.r]) /\ C = cs \cup {[at |-> a, r |-> v.r]} /\ v \notin Shown(C, K)
     ELSE C = cs /\ K = ck \cup {Chunk(v)}
  /\ Names(Shown(C, K)) = Range(R.after)
Right == /\ R.toks = flat.toks
         /\ Names(flat.viols) = Range(R.all)
         /\ Names(Shown(cs, ck)) = Range(R.before)
         /\ IF R.what = "look" THEN \A v \in Shown(cs, ck) : (cs = {} /\ ck = {}) => <<v.r, v.lo>> \in Range(R.offers)
            ELSE Placed /\ \E v \in Shown(cs, ck) : <<v.r, v.lo>> = R.asked /\ Offered(v)
Accepted == Right \/ PrintT(ToJson([rejected |-> i]))
=============================================================================
