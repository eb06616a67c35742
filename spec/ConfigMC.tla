------------------------------- MODULE ConfigMC -------------------------------
EXTENDS Config, Json
CONSTANTS Tree, CKinds, UKinds, MaxArgs
N == Len(Tree)
Args == [k : {"file", "dir"}, d : 1..N]
Init == \E c \in [1..N -> CKinds], u \in UKinds, a \in SUBSET Args :
          a # {} /\ Cardinality(a) <= MaxArgs /\ CInit(Tree, (0 :> u) @@ c, 1..N, a)
Spec == Init /\ [][CNext]_cvars
Emit == Ended => PrintT(ToJson([tree |-> tree, cfg |-> [d \in 1..N |-> cfg[d]], user |-> cfg[0], args |-> args, must |-> MustFail, may |-> MayFail,
                                broken |-> Broken, gov |-> {<<d, Gov(d), Which(Gov(d))>> : d \in Asked}]))
===============================================================================
