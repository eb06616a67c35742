-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* The rule registry and rule sets.                                         *)
(***************************************************************************)
EXTENDS RuleTable, Integers, Sequences, FiniteSets, TLC
Rows == {Table[i] : i \in 1..Len(Table)}
Names == {r.name : r \in Rows}
Row(n) == CHOOSE r \in Rows : r.name = n
Categories == {"COMM", "CORR", "SUSP", "PERF", "READ", "TESTTHAT"}
ByCategory(c) == {n \in Names : c \in Row(n).cats}
ByFix(f) == {n \in Names : Row(n).fix = f}
ByDefault(e) == {n \in Names : Row(n).enabled = e}
Lookup(s) == IF s \in Names THEN s ELSE "-"
CatLookup(s) == IF s \in Categories THEN s ELSE "-"

(* the table itself *)
UniqueNames == Cardinality(Names) = Len(Table)
Partition == /\ ByFix("none") \cup ByFix("safe") \cup ByFix("unsafe") = Names
             /\ ByFix("none") \cap ByFix("safe") = {} /\ ByFix("safe") \cap ByFix("unsafe") = {} /\ ByFix("none") \cap ByFix("unsafe") = {}
             /\ ByDefault(TRUE) \cup ByDefault(FALSE) = Names /\ ByDefault(TRUE) \cap ByDefault(FALSE) = {}
Categorised == \A r \in Rows : r.cats # {} /\ r.cats \subseteq Categories
TestthatOffByDefault == \A n \in ByCategory("TESTTHAT") : ~Row(n).enabled
DeprecatedPointsSomewhere == \A r \in Rows : r.dep # <<>> => r.dep[2] \in Names \ {r.name}

(* ---- rule sets: a sequence with the operations used on it ---- *)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Without(s, d) == SelectSeq(s, LAMBDA x : x \notin ToSet(d))
=============================================================================
