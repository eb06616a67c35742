-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Control flow of R code, for the rule about unreachable code.  A program is  *)
(* a sequence of statements; a statement is [k, c, b]:                         *)
(*   k = "s": anything that goes on; "ret", "stop", "brk", "nxt";               *)
(*   "if" with a condition c and one or two branches b; "loop" (for, while,     *)
(*   repeat) and "blk" (braces) with one body; "fun": a definition of a          *)
(*   function with that body.                                                  *)
(* A branch or body is again a sequence.  A path <<3, 2, 1>> is the first        *)
(* statement of the second branch of the third statement; <<3, 2>> that branch. *)
(*                                                                         *)
(* The machine walks: it visits statements one after another, as execution      *)
(* could.  Loops may end at any time (the rule does not look at their            *)
(* conditions), a branch is taken unless its condition is constant.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES prog, visited, front
fvars == <<prog, visited, front>>

(* ---------------------------------------------------------------- conditions *)
(* <<"x">>: anything else; constant if the operators make it so *)
RECURSIVE Const(_)
Const(c) == CASE c[1] = "T" -> "T" [] c[1] = "F" -> "F"
              [] c[1] = "par" -> Const(c[2])
              [] c[1] = "or" -> LET l == Const(c[2]) r == Const(c[3]) IN IF "T" \in {l, r} THEN "T" ELSE IF l = "F" /\ r = "F" THEN "F" ELSE "U"
              [] c[1] = "and" -> LET l == Const(c[2]) r == Const(c[3]) IN IF "F" \in {l, r} THEN "F" ELSE IF l = "T" /\ r = "T" THEN "T" ELSE "U"
              [] OTHER -> "U"

(* --------------------------------------------------------------------- paths *)
RECURSIVE StmtAt(_, _), SeqAt(_, _)
StmtAt(l, p) == IF Len(p) = 1 THEN l[p[1]] ELSE StmtAt(l[p[1]].b[p[2]], SubSeq(p, 3, Len(p)))
SeqAt(l, p) == IF p = <<>> THEN l ELSE SeqAt(l[p[1]].b[p[2]], SubSeq(p, 3, Len(p)))
Front(p) == SubSeq(p, 1, Len(p) - 1)
Stmt(p) == StmtAt(prog, p)
Body(p) == SeqAt(prog, p)
(* all sequences of a program: the empty path and those of branches and bodies *)
RECURSIVE SeqsOf(_, _)
SeqsOf(l, p) == {p} \cup UNION {UNION {SeqsOf(l[k].b[j], p \o <<k, j>>) : j \in 1..Len(l[k].b)} : k \in 1..Len(l)}
(* the code that is looked at on its own: the file and every function *)
Root(p) == p = <<>> \/ Stmt(Front(p)).k = "fun"
Roots == {p \in SeqsOf(prog, <<>>) : Root(p)}
RECURSIVE LoopOf(_), RootOf(_)
(* the loop around a sequence, in the same function: <<>> if there is none *)
LoopOf(p) == IF Root(p) THEN <<>> ELSE IF Stmt(Front(p)).k = "loop" THEN Front(p) ELSE LoopOf(Front(Front(p)))
RootOf(p) == IF Root(p) THEN p ELSE RootOf(Front(Front(p)))

(* ----------------------------------------------------------------- execution *)
RECURSIVE After(_)
(* where execution goes after the statement at p ends *)
Leave(q) == IF Root(q) THEN {} ELSE IF Stmt(Front(q)).k = "loop" THEN {Front(q)} ELSE After(Front(q))
After(p) == LET q == Front(p) k == p[Len(p)] IN IF k < Len(Body(q)) THEN {Append(q, k + 1)} ELSE Leave(q)
Enter(q) == IF Body(q) = <<>> THEN Leave(q) ELSE {Append(q, 1)}
Succ(p) == LET s == Stmt(p) loop == LoopOf(Front(p)) IN
   CASE s.k \in {"ret", "stop"} -> {}
     [] s.k = "brk" /\ loop # <<>> -> After(loop)
     [] s.k = "nxt" /\ loop # <<>> -> {loop}
     [] s.k = "loop" -> Enter(Append(p, 1)) \cup After(p)
     [] s.k = "blk" -> Enter(Append(p, 1))
     [] s.k = "if" -> (IF Const(s.c) # "F" THEN Enter(Append(p, 1)) ELSE {})
                      \cup (IF Const(s.c) # "T" THEN (IF Len(s.b) = 2 THEN Enter(Append(p, 2)) ELSE After(p)) ELSE {})
     [] OTHER -> After(p)
FInit(pr) == prog = pr /\ visited = {} /\ front = UNION {IF SeqAt(pr, p) = <<>> THEN {} ELSE {Append(p, 1)} :
                 p \in {x \in SeqsOf(pr, <<>>) : x = <<>> \/ StmtAt(pr, Front(x)).k = "fun"}}
(* one statement after another, in a fixed order *)
Least(S) == CHOOSE p \in S : \A q \in S : p = q \/ Len(p) < Len(q) \/ (Len(p) = Len(q) /\ \E k \in 1..Len(p) : p[k] < q[k] /\ \A j \in 1..(k-1) : p[j] = q[j])
FNext == /\ front # {} /\ LET p == Least(front) IN visited' = visited \cup {p} /\ front' = (front \cup Succ(p)) \ (visited \cup {p})
         /\ UNCHANGED prog
Ended == front = {}

(* ------------------------------------------- the same, by structure of the code *)
RECURSIVE Falls(_, _), FallsAll(_, _)
(* can execution go on after the statement?  inl: it is in a loop *)
Falls(s, inl) == CASE s.k \in {"ret", "stop"} -> FALSE
                   [] s.k \in {"brk", "nxt"} -> ~inl
                   [] s.k = "blk" -> FallsAll(s.b[1], inl)
                   [] s.k = "if" -> (Const(s.c) # "F" /\ FallsAll(s.b[1], inl)) \/ (Const(s.c) # "T" /\ (Len(s.b) = 1 \/ FallsAll(s.b[2], inl)))
                   [] OTHER -> TRUE
FallsAll(l, inl) == \A k \in 1..Len(l) : Falls(l[k], inl)
RECURSIVE Why(_, _)
(* why nothing goes on after the statement *)
Why(s, inl) == IF s.k = "if" THEN "branch"
               ELSE IF s.k = "blk" THEN LET l == s.b[1] k == CHOOSE j \in 1..Len(l) : ~Falls(l[j], inl) /\ \A i \in 1..(j-1) : Falls(l[i], inl) IN Why(l[k], inl)
               ELSE s.k
RECURSIVE Dead(_, _, _)
(* what is reported of a sequence execution comes to: the statements after one that     *)
(* does not go on, as one piece, and whole branches that are not taken                    *)
Dead(l, p, inl) ==
   LET stop == {k \in 1..Len(l) : ~Falls(l[k], inl) /\ \A i \in 1..(k-1) : Falls(l[i], inl)}
       last == IF stop = {} THEN Len(l) ELSE CHOOSE k \in stop : TRUE
   IN (IF last < Len(l) THEN {[p |-> p, from |-> last + 1, to |-> Len(l), why |-> Why(l[last], inl)]} ELSE {})
      \cup UNION {LET s == l[k] q == Append(p, k) IN
                    CASE s.k = "if" -> (IF Const(s.c) # "F" THEN Dead(s.b[1], Append(q, 1), inl) ELSE {[p |-> Append(q, 1), from |-> 0, to |-> 0, why |-> "dead"]})
                                       \cup (IF Len(s.b) = 1 THEN {} ELSE IF Const(s.c) # "T" THEN Dead(s.b[2], Append(q, 2), inl) ELSE {[p |-> Append(q, 2), from |-> 0, to |-> 0, why |-> "dead"]})
                      [] s.k = "loop" -> Dead(s.b[1], Append(q, 1), TRUE)
                      [] s.k = "blk" -> Dead(s.b[1], Append(q, 1), inl)
                      [] OTHER -> {} : k \in 1..last}
(* return() has no meaning outside of functions: what follows is not reported *)
Reports == UNION {{x \in Dead(Body(r), r, FALSE) : ~(r = <<>> /\ x.why = "ret")} : r \in Roots}

(* ------------------------------------------------------------------ invariants *)
AllStmts == UNION {{Append(q, k) : k \in 1..Len(Body(q))} : q \in SeqsOf(prog, <<>>)}
(* the statements a report is about: the piece and all that is in it, but functions *)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Covered(x) == {s \in AllStmts : /\ Prefix(x.p, s) /\ Len(s) > Len(x.p) /\ (x.to = 0 \/ s[Len(x.p) + 1] \in x.from..x.to)
                                /\ RootOf(Front(s)) = RootOf(x.p)}
AllDead == UNION {Dead(Body(r), r, FALSE) : r \in Roots}
(* reported is exactly what no execution visits, once *)
Exact == Ended => /\ UNION {Covered(x) : x \in AllDead} = AllStmts \ visited
                  /\ \A x, y \in AllDead : x # y => Covered(x) \cap Covered(y) = {}
(* a report is not empty, but for branches *)
Solid == \A x \in AllDead : x.to = 0 \/ (x.from > 1 /\ x.from <= x.to)
=============================================================================
