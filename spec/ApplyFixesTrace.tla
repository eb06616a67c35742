--------------------------- MODULE ApplyFixesTrace ---------------------------
EXTENDS ApplyFixes, Json, IOUtils, TLC
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l \in 1..Len(Rec) /\ text = Rec[l].t /\ fixes = Rec[l].f /\ i = 1 /\ sel = {} /\ out = text
TSpec == TInit /\ [][FALSE]_<<avars, l>>
Ok == \E S \in Choices(fixes) : /\ (S # Reals(fixes) => Rec[l].k)
                                /\ (Reals(fixes) = {} => ~Rec[l].k)
                                /\ Rec[l].r = Subst(text, fixes, S)
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
