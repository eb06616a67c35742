------------------------------- MODULE PathsMC -------------------------------
EXTENDS Paths, Json
CONSTANTS Depth, Comps, MaxComps, Pieces, MaxPieces
(* the working directory has Depth components *)
Cwd == [i \in 1..Depth |-> "c" \o ToString(i - 1)]
VARIABLES kind, isabs, p
Init == \/ kind = "name" /\ p = <<>> /\ isabs = FALSE
        \/ kind = "path" /\ p = <<>> /\ isabs \in BOOLEAN
        \/ kind = "path" /\ isabs = TRUE /\ p \in {SubSeq(Cwd, 1, k) : k \in 1..Len(Cwd)}
VARIABLE n
MInit == Init /\ n = 0
MNext == /\ n < (IF kind = "name" THEN MaxPieces ELSE MaxComps) /\ n' = n + 1 /\ UNCHANGED <<kind, isabs>>
         /\ \E c \in (IF kind = "name" THEN Pieces ELSE Comps) : p' = Append(p, c)
Spec == MInit /\ [][MNext]_<<kind, isabs, p, n>>
A == Absolute(Cwd, isabs, p)
Clean == kind = "path" => \A i \in 1..Len(A) : A[i] \notin {"dot", "up", "empty"}
Idempotent == kind = "path" => Absolute(Cwd, TRUE, A) = A
SameFile == kind = "path" => LET s == Shown(Cwd, A) IN Absolute(Cwd, s.abs, s.p) = A
Apart == kind = "name" => ~(IsR(p) /\ IsNotebook(p))
\* "" is no path; a relative path cannot start with an empty component
Proper == p # <<>> /\ (kind = "path" => (isabs \/ p[1] # "empty"))
Emit == Proper =>
  IF kind = "name" THEN PrintT(ToJson([k |-> kind, t |-> p, r |-> <<IsR(p), IsNotebook(p)>>]))
  ELSE LET s == Shown(Cwd, A) IN PrintT(ToJson([k |-> kind, abs |-> isabs, p |-> p, n |-> A, sabs |-> s.abs, s |-> s.p]))
=============================================================================
