----------------------------- MODULE ChunkMapMC -----------------------------
EXTENDS ChunkMap, Json, TLC
CONSTANTS Pieces, MaxLines
Next == Len(doc) < MaxLines /\ \E p \in Pieces : Add(p)
Spec == CInit /\ [][Next]_cvars
Emit == PrintT(ToJson([d |-> doc, e |-> eol, w |-> want]))
=============================================================================
