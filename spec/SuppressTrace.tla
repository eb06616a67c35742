---------------------------- MODULE SuppressTrace ----------------------------
(* Recorded lint runs: the document read again line by line; what the linter  *)
(* reported must be faithful to it.                                            *)
EXTENDS Suppress, Json, IOUtils, TLC
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Rec[l]
TInit == SInit /\ l \in 1..Len(Rec)
TNext == /\ Len(doc) < Len(R.d) /\ l' = l
         /\ LET x == R.d[Len(doc) + 1] IN Read([k |-> x[1], r |-> x[2], t |-> x[3]])
TSpec == TInit /\ [][TNext]_<<svars, l>>
Range(s) == {s[i] : i \in 1..Len(s)}
Selected(d) == d \in Range(R.sel)
Rep == {a \in 1..Len(viols) : <<viols[a].line, viols[a].r>> \in Range(R.rep)}
Unused == {i \in 1..Len(Sups) : Sups[i].line \in Range(R.unused)}
Hidden == /\ Range(R.rep) = {<<viols[a].line, viols[a].r>> : a \in Rep} /\ Len(R.rep) = Cardinality(Range(R.rep))
          /\ Hides(Rep)
Accounted == /\ Range(R.defects) = {d \in Defects : Selected(d[2])} /\ Len(R.defects) = Cardinality(Range(R.defects))
             /\ IF Selected("outdated") THEN Accounts(Rep, Unused) /\ Range(R.unused) = {Sups[i].line : i \in Unused} /\ Len(R.unused) = Cardinality(Range(R.unused))
                ELSE R.unused = <<>>
Ok == (Len(doc) = Len(R.d)) => Complete /\ (IF IOEnv.WHAT = "hide" THEN Hidden ELSE Accounted)
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
