------------------------------ MODULE RulesDoc ------------------------------
(* docs/rules.qmd, row by row, against RuleTable. *)
EXTENDS Rules, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l \in 1..Len(Rec)
TNext == FALSE /\ l' = l
TSpec == TInit /\ [][TNext]_l
R == Rec[l]
Ok == /\ R.name \in Names
      /\ LET w == Row(R.name) IN ToSet(R.cats) = w.cats /\ R.fix = w.fix /\ R.enabled = w.enabled /\ R.min = w.min
      /\ Len(Rec) = Cardinality(Names)
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
