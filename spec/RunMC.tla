-------------------------------- MODULE RunMC --------------------------------
EXTENDS Run, Rules, Json
CONSTANTS Kinds, MaxFiles
File(k) == CASE k = "clean" -> [v |-> <<>>, err |-> FALSE]
             [] k = "one" -> [v |-> <<"any_is_na">>, err |-> FALSE]
             [] k = "two" -> [v |-> <<"any_duplicated", "any_is_na">>, err |-> FALSE]
             [] k = "none" -> [v |-> <<"duplicated_arguments">>, err |-> FALSE]
             [] k = "unsafe" -> [v |-> <<"all_equal", "duplicated_arguments">>, err |-> FALSE]
             [] k = "nested" -> [v |-> <<"any_is_na", "length_levels">>, err |-> FALSE]
             [] k = "broken" -> [v |-> <<>>, err |-> TRUE]
             [] k = "bytes" -> [v |-> <<>>, err |-> TRUE]
             [] k = "note" -> [v |-> <<"any_is_na">>, err |-> FALSE]
             [] k = "part" -> [v |-> <<"any_is_na">>, err |-> FALSE]
             [] k = "gone" -> [v |-> <<>>, err |-> TRUE]
VARIABLE kinds
Init == \E n \in 1..MaxFiles : \E ks \in [1..n -> Kinds] : kinds = ks /\ RInit([i \in 1..n |-> File(ks[i])], "ok")
Spec == Init /\ [][RNext /\ UNCHANGED kinds]_<<rvars, kinds>>
InOrder == \A i \in 1..Len(got) : got[i] = i
(* fixes are offered outside of notebooks only *)
Fixed(k) == kinds[report[k][1]] \notin {"note", "part"}
Rule(k) == files[report[k][1]].v[report[k][2]]
With(f) == Cardinality({k \in 1..Len(report) : Fixed(k) /\ Rule(k) \in ByFix(f)})
Star(r) == \E k \in 1..Len(report) : Fixed(k) /\ Rule(k) = r /\ r \in ByFix("safe")
Vec == [kinds |-> kinds, report |-> [i \in 1..Len(report) |-> <<report[i][1], Rule(i)>>], errors |-> errors, code |-> code,
        counts |-> {<<r, Count(r), IF Star(r) THEN 1 ELSE 0>> : r \in Violated}, safe |-> With("safe"), unsafe |-> With("unsafe")]
Emit == (phase = "end" /\ InOrder) => PrintT(ToJson(Vec))
=============================================================================
