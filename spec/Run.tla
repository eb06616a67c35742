--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* A run of `jarl check` over several files.  The files, in the order of their*)
(* names, are linted by any number of workers: each file finishes at any time, *)
(* with the violations found in it (in the order of their place) or with an    *)
(* error.  Then the results are put together, shown and decide the exit code.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES files, setup, todo, got, phase, report, errors, code
rvars == <<files, setup, todo, got, phase, report, errors, code>>
(* a file: [v |-> rules of its violations in order, err |-> BOOLEAN]; setup is *)
(* "ok" or what makes the whole run fail                                       *)
RInit(f, s) == /\ files = f /\ setup = s /\ todo = 1..Len(f) /\ got = <<>> /\ phase = "setup" /\ report = <<>> /\ errors = <<>> /\ code = -1
Setup == /\ phase = "setup" /\ phase' = (IF setup = "ok" THEN "lint" ELSE "failed")
         /\ code' = (IF setup = "ok" THEN code ELSE IF setup = "usage" THEN 2 ELSE 255)
         /\ UNCHANGED <<files, setup, todo, got, report, errors>>
Finish == /\ phase = "lint" /\ \E i \in todo : todo' = todo \ {i} /\ got' = Append(got, i)
          /\ UNCHANGED <<files, setup, phase, report, errors, code>>
(* insertion of one file's results into the sorted report, one after the other *)
RECURSIVE Merge(_, _)
Merge(g, acc) == IF g = <<>> THEN acc ELSE
   LET i == Head(g) mine == [k \in 1..Len(files[i].v) |-> <<i, k>>]
       before == SelectSeq(acc, LAMBDA x : x[1] < i) after == SelectSeq(acc, LAMBDA x : x[1] > i)
   IN Merge(Tail(g), before \o mine \o after)
RECURSIVE MergeErr(_, _)
MergeErr(g, acc) == IF g = <<>> THEN acc ELSE
   LET i == Head(g) IN MergeErr(Tail(g), IF files[i].err THEN SelectSeq(acc, LAMBDA x : x < i) \o <<i>> \o SelectSeq(acc, LAMBDA x : x > i) ELSE acc)
Collect == /\ phase = "lint" /\ todo = {} /\ phase' = "end"
           /\ report' = Merge(got, <<>>) /\ errors' = MergeErr(got, <<>>)
           /\ code' = (IF errors' # <<>> THEN 255 ELSE IF report' # <<>> THEN 1 ELSE 0)
           /\ UNCHANGED <<files, setup, todo, got>>
RNext == Setup \/ Finish \/ Collect
Ended == phase \in {"end", "failed"}
(* what the statistics count *)
Violated == UNION {{files[i].v[k] : k \in 1..Len(files[i].v)} : i \in 1..Len(files)}
Count(r) == Cardinality({x \in {<<i, k>> : i \in 1..Len(files), k \in 1..9} : x[2] <= Len(files[x[1]].v) /\ files[x[1]].v[x[2]] = r})

RECURSIVE Canon(_)
Canon(n) == IF n = 0 THEN <<>> ELSE Canon(n - 1) \o [k \in 1..Len(files[n].v) |-> <<n, k>>]
(* whatever the order in which files finish, the outcome is one and the same *)
OneOutcome == phase = "end" => report = Canon(Len(files)) /\ errors = SelectSeq([i \in 1..Len(files) |-> i], LAMBDA i : files[i].err)
Broken == {i \in 1..Len(files) : files[i].err}
Codes == /\ phase = "failed" => code \in {2, 255} /\ report = <<>>
         /\ phase = "end" => (code = 255) = (Broken # {}) /\ (code = 0) = (Broken = {} /\ \A i \in 1..Len(files) : files[i].v = <<>>)
=============================================================================
