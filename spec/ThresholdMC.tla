------------------------------ MODULE ThresholdMC ------------------------------
EXTENDS Threshold, Json
CONSTANTS Names, Patterns, Thrs, MaxPats, NPacks
Packs == {[funs |-> f, skip |-> s, thr |-> t, named |-> n] : f \in {Names, {CHOOSE x \in Names : TRUE}}, s \in {x \in SUBSET Patterns : Cardinality(x) <= MaxPats}, t \in Thrs, n \in BOOLEAN}
Init == \E p \in [1..NPacks -> Packs], nm \in BOOLEAN :
          (NPacks > 1 => \A j \in 1..NPacks : p[j].skip = {}) /\ TInit0(p, nm)
Spec == Init /\ [][TNext]_tvars
Emit == Ended => PrintT(ToJson([packs |-> packs, named |-> named, shown |-> shown]))
===============================================================================
