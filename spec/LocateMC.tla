------------------------------ MODULE LocateMC ------------------------------
EXTENDS Locate, Json, TLC
CONSTANTS Pieces, MaxPieces
Next == Len(doc) < MaxPieces /\ \E p \in Pieces : Add(p)
Spec == LInit /\ [][Next]_lvars
Emit == PrintT(ToJson([d |-> doc, w |-> want]))
=============================================================================
