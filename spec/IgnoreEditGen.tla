----------------------------- MODULE IgnoreEditGen -----------------------------
(* Tokens and nodes of given programs.                                          *)
EXTENDS IgnoreEdit, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
GInit == \E x \in 1..Len(Recs) : IInit(Recs[x].prog)
GSpec == GInit /\ [][FALSE]_ivars
Emit == PrintT(ToJson([prog |-> prog, toks |-> flat.toks, starts |-> Starts, viols |-> flat.viols]))
================================================================================
