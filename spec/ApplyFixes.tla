----------------------------- MODULE ApplyFixes -----------------------------
(***************************************************************************)
(* One fixing pass.  A text is a sequence of characters (classes of Text);  *)
(* a fix replaces the characters s+1..e of the *original* text by c.  Fixes  *)
(* marked `skip` stand for violations without a fix and never edit.          *)
(*                                                                          *)
(* The pass walks the proposed fixes and may leave some for a later pass,   *)
(* but what it applies must be pairwise disjoint, it must apply something   *)
(* when there is something to apply (else fixing would never end), and it    *)
(* must ask for another pass when it left any out (asking once more than     *)
(* needed is harmless, but not when there is nothing to apply at all).  The  *)
(* edited text is built left to right with a running shift; the invariant    *)
(* says it always equals                                                     *)
(* the simultaneous substitution, whatever order the fixes come in.          *)
(***************************************************************************)
EXTENDS Text
VARIABLES text, fixes, i, sel, out
avars == <<text, fixes, i, sel, out>>

Real(f)        == ~f.skip
Disjoint(f, g) == f.e <= g.s \/ g.e <= f.s
Compatible(F, S) == \A a, b \in S : a # b => Disjoint(F[a], F[b])

(* simultaneous substitution of the fixes with indices S *)
RECURSIVE SubstFrom(_, _, _, _)
SubstFrom(t, F, S, k) ==      \* k: characters of t already handled
  LET here == {a \in S : F[a].s = k}
      ins  == {a \in here : F[a].e = k}
      rep  == {a \in here : F[a].e > k}
      done == IF ins = {} THEN <<>> ELSE F[CHOOSE a \in ins : TRUE].c
  IN done \o (IF rep # {} THEN LET a == CHOOSE a \in rep : TRUE IN F[a].c \o SubstFrom(t, F, S, F[a].e)
              ELSE IF k < Len(t) THEN <<t[k + 1]>> \o SubstFrom(t, F, S, k + 1) ELSE <<>>)
Subst(t, F, S) == SubstFrom(t, F, S, 0)

Reals(F) == {a \in 1..Len(F) : Real(F[a])}
Choices(F) == {S \in SUBSET Reals(F) : Compatible(F, S) /\ (S = {} => Reals(F) = {})}
(* all results a pass may have *)
Acceptable(t, F) == {[t |-> Subst(t, F, S), k |-> TRUE] : S \in IF Reals(F) = {} THEN {} ELSE Choices(F)}
                    \cup {[t |-> Subst(t, F, Reals(F)), k |-> FALSE] : x \in IF Compatible(F, Reals(F)) THEN {1} ELSE {}}

(* in-place editing: characters shifted by the fixes applied to the left *)
RECURSIVE ShiftOf(_, _, _)
ShiftOf(F, S, p) == IF S = {} THEN 0
                    ELSE LET a == CHOOSE a \in S : TRUE
                         IN (IF F[a].e <= p THEN Len(F[a].c) - (F[a].e - F[a].s) ELSE 0) + ShiftOf(F, S \ {a}, p)
Splice(t, s, e, c) == SubSeq(t, 1, s) \o c \o SubSeq(t, e + 1, Len(t))

Take == LET f == fixes[i] IN
        /\ Real(f) /\ \A a \in sel : Disjoint(fixes[a], f)
        /\ out' = LET d == ShiftOf(fixes, sel, f.s) IN Splice(out, f.s + d, f.e + d, f.c)
        /\ sel' = sel \cup {i}
Leave == UNCHANGED <<sel, out>> /\ (Real(fixes[i]) => \E a \in Reals(fixes) : a # i)
Step == i <= Len(fixes) /\ i' = i + 1 /\ (Take \/ Leave) /\ UNCHANGED <<text, fixes>>

InPlace == out = Subst(text, fixes, sel)
Untouched == sel = {} => out = text
=============================================================================
