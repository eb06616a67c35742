----------------------------- MODULE RewriteMC -----------------------------
(* all terms over an alphabet: U one-place operators, B two-place ones, H terms *)
(* with a hole <<"_">>, L leaves; Depth levels, with a leaf on one side of B.    *)
EXTENDS Rewrite, Json
CONSTANTS U, B, H, L, Depth
RECURSIVE Fill(_, _)
Fill(h, e) == IF h = <<"_">> THEN e ELSE Mk(h[1], [i \in 1..(Len(h) - 1) |-> Fill(h[i + 1], e)])
Over(S) == {Mk(u, <<e>>) : u \in U, e \in S} \cup {Mk(b, <<e, l>>) : b \in B, e \in S, l \in L} \cup {Mk(b, <<l, e>>) : b \in B, e \in S, l \in L} \cup {Fill(h, e) : h \in H, e \in S}
RECURSIVE Level(_)
Level(k) == IF k = 0 THEN L ELSE LET S == Level(k - 1) IN S \cup Over(S)
(* nothing is assigned to an assignment, and a pipe leads into a call *)
Literals == {"TRUE", "FALSE", "NA", "NULL", "NaN", "Inf", "0", "1", "2", "1L", "3L", ".5"} \cup Strings
RECURSIVE Sane(_)
Sane(t) == ~(t[1] \in {"=", "<-"} /\ t[2][1] \in {"=", "<-", "->"}) /\ ~(t[1] = "->" /\ t[3][1] \in {"=", "<-", "->"}) /\ ~(t[1] = "(" /\ t[2][1] = "(")
   /\ ~(t[1] \in Pipes /\ ~IsCall(t[3]) /\ ~(Len(t[3]) = 1 /\ t[3][1] \notin Literals))
   /\ \A i \in 2..Len(t) : Sane(t[i])
Init == orig \in {t \in Level(Depth - 1) : Sane(t)} /\ term = orig /\ last = "grow"
Grow == /\ last = "grow" /\ \E t \in Over({orig}) \cup {orig} : Sane(t) /\ orig' = t /\ term' = t
        /\ last' = ""
Next == Grow \/ (last # "grow" /\ Fix)
Spec == Init /\ [][Next]_rvars
Fair == Spec /\ WF_rvars(Next)
Emit == last # "grow" => PrintT(ToJson([arrow |-> Arrow, o |-> orig, n |-> Strip(term), end |-> Normal, v |-> IF term = orig /\ last = "" THEN Viols(orig, <<>>, <<>>) ELSE {}, first |-> term = orig]))
(* rewriting ends *)
Ends == <>[](last # "grow" /\ Normal)
=============================================================================
