---------------------------- MODULE ApplyFixesMC ----------------------------
EXTENDS ApplyFixes, Json, TLC
CONSTANTS Texts, MaxFixes, Contents, Inserts, WithSkip
Fix(t) == {[s |-> s, e |-> e, c |-> c, skip |-> FALSE] : s \in 0..Len(t), e \in 0..Len(t), c \in Contents}
Ok(t, F, f) == /\ f.s <= f.e /\ (f.s = f.e => Inserts /\ f.c # <<>>)
               /\ \A a \in 1..Len(F) : ~(f.s = f.e /\ F[a].s = F[a].e /\ F[a].s = f.s)
None == [s |-> 0, e |-> 0, c |-> <<>>, skip |-> TRUE]
Init == text \in Texts /\ fixes = <<>> /\ i = 1 /\ sel = {} /\ out = text
Propose == /\ i = 1 /\ Len(fixes) < MaxFixes
           /\ \E f \in Fix(text) \cup (IF WithSkip THEN {None} ELSE {}) :
                (f = None \/ Ok(text, fixes, f)) /\ fixes' = Append(fixes, f)
           /\ UNCHANGED <<text, i, sel, out>>
(* the walk itself is explored for complete proposals only *)
Next == Propose \/ (Len(fixes) = MaxFixes /\ Step)
Spec == Init /\ [][Next]_avars
Emit == i = 1 => PrintT(ToJson([t |-> text, f |-> fixes, ok |-> Acceptable(text, fixes)]))
Complete == (i > Len(fixes) /\ fixes # <<>> /\ sel # {}) => [t |-> out, k |-> sel # Reals(fixes)] \in Acceptable(text, fixes)
=============================================================================
