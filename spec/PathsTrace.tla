----------------------------- MODULE PathsTrace -----------------------------
EXTENDS Paths, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l \in 1..Len(Rec)
TNext == FALSE /\ l' = l
TSpec == TInit /\ [][TNext]_l
R == Rec[l]
Ok == IF "name" \in DOMAIN R THEN R.kind = <<IsR(R.name), IsNotebook(R.name)>>
      ELSE LET a == Absolute(R.cwd, R.abs, R.p) s == Shown(R.cwd, a) IN
           R.n = a /\ R.sabs = s.abs /\ R.s = s.p
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
