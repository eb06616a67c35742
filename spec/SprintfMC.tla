------------------------------ MODULE SprintfMC ------------------------------
EXTENDS Sprintf, Json, TLC
CONSTANTS Alphabet, MaxLen
Next == Len(fmt) < MaxLen /\ ~st.odd /\ \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_svars
(* only whole formats in which something happens *)
Emit == st.odd \/ ~(\E k \in 1..Len(fmt) : fmt[k] = "%") \/
        PrintT(ToJson([f |-> fmt, lit |-> st.lit, v |-> [n \in 1..4 |-> Verdict(st, n - 1, FALSE)], d |-> Verdict(st, 1, TRUE)]))
=============================================================================
