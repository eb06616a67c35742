------------------------------ MODULE EditorTrace ------------------------------
(* Recorded projects: what the command line reported for each file (`cli`: items    *)
(* by number) and what the editor published (`ed`: rule and range).                *)
EXTENDS Editor, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
S(q) == {q[k] : k \in 1..Len(q)}
C(c) == [on |-> c.on, excl |-> S(c.excl), incl |-> S(c.incl), def |-> c.def]
W(r) == [pkg |-> S(r.pkg), ver |-> r.ver, user |-> r.user, sel |-> r.sel, thr |-> r.thr, items |-> r.items]
TInit == \E k \in 1..Len(Recs) : i = k /\ EInit(Recs[k].tree, Recs[k].dname, Recs[k].files, [d \in 1..Len(Recs[k].tree) |-> C(Recs[k].cfg[d])], W(Recs[k]))
TSpec == TInit /\ [][ENext /\ UNCHANGED i]_<<evars, i>>
At(f, K) == {Place(f, k, Recs[i].enc) : k \in K}
Without(f, ps) == IF Pooled(f) THEN {p \in ps : p.r # "fun"} ELSE ps
Right == \A f \in Fs : Apart(f) \/ (/\ Without(f, S(Recs[i].ed[f])) = At(f, But(f, out[f][2]))
                                    /\ S(Recs[i].cli[f]) = {[r |-> x.items[f][k].r, l |-> Place(f, k, "utf8").l] : k \in Cli(f)})
Accepted == Done => ((Right /\ Same) \/ PrintT(ToJson([rejected |-> i])))
===============================================================================
