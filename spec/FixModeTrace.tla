---------------------------- MODULE FixModeTrace ----------------------------
(* Recorded runs of the command line: one record per file. *)
EXTENDS FixMode, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
AsSet(s) == {s[k] : k \in 1..Len(s)}
TInit == \E k \in 1..Len(Recs) : i = k /\ FInit([Recs[k].o EXCEPT !.active = AsSet(Recs[k].o.active)], Recs[k].f)
TSpec == TInit /\ [][FNext /\ UNCHANGED i]_<<fvars, i>>
R == Recs[i]
Right == IF phase = "refused" THEN R.refused ELSE
           /\ ~R.refused
           /\ \A k \in 1..Len(file.s) : /\ R.new[k] = (text[k] = "new")
                                        /\ R.shown[k] = (IF k \in shown THEN <<file.s[k].rule>> ELSE <<>>)
Accepted == Ended => (Right \/ PrintT(ToJson([rejected |-> i])))
=============================================================================
