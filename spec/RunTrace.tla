------------------------------ MODULE RunTrace ------------------------------
(* Recorded runs: the violations of each file (linted alone), whether it      *)
(* failed, and what the whole run showed: places <<file, violation>> in order, *)
(* files with errors in order, counts per rule, the exit code (-1: the output  *)
(* format does not show it).                                                   *)
EXTENDS Run, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
TInit == \E k \in 1..Len(Recs) : i = k /\ RInit(Recs[k].files, Recs[k].setup)
(* one order of finishing is enough: OneOutcome is checked on the specification *)
TSpec == TInit /\ [][(Setup \/ Collect \/ (Finish /\ \A j \in todo' : \A g \in 1..Len(got') : got'[g] < j)) /\ UNCHANGED i]_<<rvars, i>>
R == Recs[i]
Counted(r) == Cardinality({k \in 1..Len(report) : files[report[k][1]].v[report[k][2]] = r})
Right == /\ R.code \in {code, -1}
         /\ "report" \in DOMAIN R => R.report = report
         /\ "errors" \in DOMAIN R => R.errors = errors
         /\ "found" \in DOMAIN R => R.found = Len(report)
         /\ "counts" \in DOMAIN R => /\ {R.counts[k][1] : k \in 1..Len(R.counts)} = Violated
                                     /\ Len(R.counts) = Cardinality(Violated)
                                     /\ \A k \in 1..Len(R.counts) : R.counts[k][2] = Counted(R.counts[k][1])
                                     /\ \A k \in 2..Len(R.counts) : R.counts[k - 1][2] >= R.counts[k][2]
Accepted == Ended => (Right \/ PrintT(ToJson([rejected |-> i])))
=============================================================================
