----------------------------- MODULE NotebookMC -----------------------------
EXTENDS Notebook, Json
CONSTANTS MaxLines, Wide
L(k, n) == [k |-> k, n |-> n]
Core == {L("r", 3), L("ropt", 4), L("other", 3), L("other", 4), L("fence", 3), L("fence", 4), L("text", 0), L("disp", 3)}
More == Core \cup {L("r", 2), L("r", 6), L("fence", 6), L("rbr", 3), L("cls", 3), L("gap", 3), L("noend", 3), L("tilde", 3), L("tfence", 3), L("mid", 3),
                   L("fence", 2), L("fence", 5), L("fencex", 3), L("blank", 0), L("disp", 4)}
Next == Len(doc) < MaxLines /\ \E x \in (IF Wide THEN More ELSE Core) : Read(x)
Spec == NInit /\ [][Next]_nvars
Emit == PrintT(ToJson([t |-> [i \in 1..Len(doc) |-> doc[i].k \o ToString(doc[i].n)], r |-> chunks]))
=============================================================================
