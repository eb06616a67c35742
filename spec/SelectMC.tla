------------------------------ MODULE SelectMC ------------------------------
EXTENDS Select, Json, SequencesExt
CONSTANTS Sels, Exts, Igns, FSels, FExts, FIgns, CVers, Descs
Init == \E a \in Sels, b \in Exts, c \in Igns, d \in FSels, e \in FExts, f \in FIgns, v \in CVers, w \in Descs :
          SInit([csel |-> a, cext |-> b, cign |-> c, fsel |-> d, fext |-> e, fign |-> f, cver |-> v, desc |-> w])
Spec == Init /\ [][SNext]_svars
Index(n) == CHOOSE i \in 1..Len(Table) : Table[i].name = n
Result == [r |-> req, failed |-> failed, active |-> SetToSortSeq({i \in 1..Len(Table) : Table[i].name \in active}, <)]
Emit == Finished => PrintT(ToJson(Result))
=============================================================================
