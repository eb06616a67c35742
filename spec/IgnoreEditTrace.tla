---------------------------- MODULE IgnoreEditTrace ----------------------------
(* Recorded insertions: the program, the comments found in it afterwards, and   *)
(* what is still reported.                                                       *)
EXTENDS IgnoreEdit, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Range(q) == {q[x] : x \in 1..Len(q)}
Com(q) == {[at |-> c[1], r |-> c[2]] : c \in Range(q)}
TInit == \E x \in 1..Len(Recs) : /\ i = x /\ prog = Recs[x].prog /\ cs = Com(Recs[x].comments)
                                 /\ LET f == Flat(Recs[x].prog, 1) IN       \* what is reported without any comment is what there is to hide
                                    flat = [f EXCEPT !.viols = {v \in f.viols : <<v.r, v.lo>> \in Range(Recs[x].all)}]
TSpec == TInit /\ [][FALSE]_<<ivars, i>>
R == Recs[i]
Shown(C) == {<<v.r, v.lo>> : v \in Visible(C)}
Right == /\ R.toks = flat.toks                                             \* the code that is left is the code
         /\ Cardinality(cs) = Len(R.comments) /\ Com(R.hand) \subseteq cs
         /\ Shown({}) = Range(R.all) /\ Shown(Com(R.hand)) = Range(R.before)   \* comments hide what they cover
         /\ Shown(cs) = Range(R.after) /\ R.after = <<>>
         /\ Superfluous(cs) \subseteq Com(R.hand)
         /\ \A c \in cs : c.at \in Starts
         /\ \A c \in cs \ Com(R.hand) : Modest(c)
Accepted == Right \/ PrintT(ToJson([rejected |-> i]))
================================================================================
