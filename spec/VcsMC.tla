-------------------------------- MODULE VcsMC --------------------------------
EXTENDS Vcs, Json
CONSTANTS Tree, FStates, OStates, MaxOdd, OddDirs
N == Len(Tree)
RECURSIVE Own(_, _)
Own(r, d) == IF d = 0 THEN 0 ELSE IF d \in r THEN d ELSE Own(r, Tree[d])
Opts == [fix : BOOLEAN, dirty : BOOLEAN, novcs : BOOLEAN]
(* outside of repositories a file is just there; at most MaxOdd states are not clean *)
Init == \E r \in SUBSET (1..N) : \E f \in [1..N -> FStates \cup {"absent", "clean"}], o \in [1..N -> OStates \cup {"absent"}] :
          /\ \A d \in 1..N : Own(r, d) = 0 => f[d] \in {"absent", "clean"} /\ o[d] \in {"absent"}
          /\ Cardinality({d \in 1..N : f[d] \notin {"clean", "absent"}}) + Cardinality({d \in 1..N : o[d] # "absent"}) <= MaxOdd
          /\ \A d \in 1..N : o[d] # "absent" => d \in OddDirs
          /\ LET here == {d \in 1..N : f[d] \notin {"absent", "removed"}} IN
             /\ here # {}
             /\ \E q \in SUBSET here : q # {} /\ \E op \in Opts : (~op.fix => op.dirty = op.novcs) /\ VInit(Tree, r, f, o, here \ {2}, q, op)
Spec == Init /\ [][VNext]_vvars
Emit == Ended => PrintT(ToJson([tree |-> tree, repos |-> repos, file |-> file, other |-> other, viol |-> viol, req |-> req,
                                fix |-> opts.fix, dirty |-> opts.dirty, novcs |-> opts.novcs, written |-> written, outcome |-> outcome]))
=============================================================================
