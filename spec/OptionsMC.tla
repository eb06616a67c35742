------------------------------ MODULE OptionsMC ------------------------------
EXTENDS Options, Json
CONSTANTS Lists, MaxSet, Opers, Clis
(* lists are given by names of their own and some of the rule's defaults *)
Some(r) == CHOOSE f \in Default(r) : TRUE
Vals(r) == {Unset} \cup {[set |-> TRUE, names |-> l] : l \in Lists} \cup {[set |-> TRUE, names |-> l \cup {Some(r)}] : l \in Lists}
Funs == UNION Lists \cup UNION {Default(r) : r \in Rules} \cup {"other"}
Calls == {[p |-> p, f |-> f] : p \in {"", "pkg::", "pkg:::", "x$"}, f \in Funs}
NSet(b, e) == Cardinality({r \in Rules : b[r].set \/ e[r].set})
Pick(r) == Vals(r) \X Vals(r)
Init == \E R \in {R \in SUBSET Rules : Cardinality(R) <= MaxSet} :
        \E v \in [R -> UNION {Pick(r) : r \in R}] : (\A r \in R : v[r] \in Pick(r)) /\
        \E o \in Opers, c \in Clis :
          /\ IF R = {} THEN TRUE ELSE IF Cardinality(R) = 1 THEN c = "" ELSE o = "" /\ c = ""
          /\ OInit([r \in Rules |-> IF r \in R THEN v[r][1] ELSE Unset], [r \in Rules |-> IF r \in R THEN v[r][2] ELSE Unset], o, c, Calls)
Spec == Init /\ [][ONext]_ovars
Emit == Ended => PrintT(ToJson([base |-> base, ext |-> ext, oper |-> oper, cli |-> cli, fails |-> Fails, conflicts |-> Conflicts,
                                reports |-> IF Fails THEN {} ELSE Reports, assigns |-> Assigns]))
===============================================================================
