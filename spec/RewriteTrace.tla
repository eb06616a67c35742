---------------------------- MODULE RewriteTrace ----------------------------
(* Recorded: a term t, and either the violations v reported in a text of it, or *)
(* what that text became when fixed (without parentheses; `comments`: some stood *)
(* in the text, so that rewritings may have been declined).                       *)
EXTENDS Rewrite, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
TInit == \E k \in 1..Len(Recs) : i = k /\ RInit({Recs[k].t})
TSpec == TInit /\ [][UNCHANGED <<rvars, i>>]_<<rvars, i>>
RECURSIVE Closure(_, _)
Closure(S, front) == IF front = {} THEN S ELSE LET n == UNION {{s[2] : s \in Steps(t, <<>>)} : t \in front} \ S IN Closure(S \cup n, n)
Reach(t) == Closure({t}, {t})
Reports(r) == LET vs == Viols(orig, <<>>, <<>>) IN
  {<<r.v[k].rule, r.v[k].path>> : k \in 1..Len(r.v)} = {<<v.rule, v.path>> : v \in vs} /\ Len(r.v) = Cardinality(vs)
Becomes(r) == \E t \in Reach(orig) : Strip(t) = r.fixed /\ (r.comments \/ Steps(t, <<>>) = {})
Right(r) == WellFormed(orig) /\ (IF r.what = "report" THEN Reports(r) ELSE Becomes(r))
Accepted == Right(Recs[i]) \/ PrintT(ToJson([rejected |-> i]))
=============================================================================
