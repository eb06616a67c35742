------------------------------ MODULE DiscoverMC ------------------------------
EXTENDS Discover, Json
CONSTANTS Tree, DNames, Files, CfgDirs, Pats, MaxPats, MaxArgs, Top1, AnyOrder
One(P) == {{}} \cup {{p} : p \in P}
Off == [on |-> FALSE, excl |-> {}, incl |-> {}, def |-> TRUE]
Confs == {Off} \cup {[on |-> TRUE, excl |-> x, incl |-> i, def |-> d] : x \in {x \in One(Pats) : TRUE}, i \in One(Pats), d \in BOOLEAN}
Size(c) == Cardinality(c.excl) + Cardinality(c.incl) + (IF c.def THEN 0 ELSE 1)
Small == {c \in Confs : Size(c) <= MaxPats}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET d == CHOOSE d \in S : TRUE IN Size(f[d]) + Sum(f, S \ {d})
Args == [k : {"dir"}, x : 1..Len(Tree)] \cup [k : {"file"}, x : 1..Len(Files)]
Init == \E c \in [CfgDirs -> Small] : Sum(c, CfgDirs) <= MaxPats /\
        \E nd \in BOOLEAN : \E a \in {{x} : x \in Args} \cup (IF MaxArgs > 1 THEN {{[k |-> "dir", x |-> Top1], x} : x \in Args} ELSE {}) :
          DInit(Tree, DNames, Files, [d \in 1..Len(Tree) |-> IF d \in CfgDirs THEN c[d] ELSE Off], nd, a)
Next == (IF AnyOrder THEN VisitAny ELSE VisitOne) \/ Filter
Spec == Init /\ [][Next]_dvars
Emit == Ended => PrintT(ToJson([cfg |-> [d \in 1..Len(Tree) |-> cfg[d]], nodef |-> nodef, args |-> args, must |-> Must, may |-> May]))
===============================================================================
