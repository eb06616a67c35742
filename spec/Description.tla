----------------------------- MODULE Description -----------------------------
(***************************************************************************)
(* The minimum R version in a DESCRIPTION file, read line by line.          *)
(* Tokens: Depends / Imports (a field name with its colon at the start of a *)
(* line; Imports stands for every other field), in (indentation), junk (a   *)
(* line that is neither), nl, sp, comma, R, Rx (another package whose name  *)
(* starts with R), pkg, lp, rp, ge >=, gt >, eq ==, le (<= < !=), v1, v2.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SplitOn(_, _)
SplitOn(s, t) ==
  LET C == {i \in 1..Len(s) : s[i] = t} IN
  IF C = {} THEN <<s>>
  ELSE LET i == CHOOSE i \in C : \A j \in C : i <= j IN
       <<SubSeq(s, 1, i - 1)>> \o SplitOn(SubSeq(s, i + 1, Len(s)), t)
From(s, i) == SubSeq(s, i, Len(s))
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "eof"
Blanks == {"sp", "in"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in Blanks THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Blanks THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))

(* ---- one dependency ---- *)
Name == {"R", "Rx", "pkg", "v1", "v2"}
IsR(d) == At(d, 1) = "R" /\ At(d, 2) \notin Name
Bound(inner) ==   \* what the parentheses hold
  CASE At(inner, 1) \in {"ge", "gt", "eq"} /\ Len(Trim(From(inner, 2))) = 1 /\ Trim(From(inner, 2))[1] \in {"v1", "v2"}
         -> [v |-> <<Trim(From(inner, 2))[1]>>, ok |-> TRUE]
    [] At(inner, 1) = "le" /\ Len(Trim(From(inner, 2))) = 1 /\ Trim(From(inner, 2))[1] \in {"v1", "v2"}
         -> [v |-> <<>>, ok |-> TRUE]
    [] OTHER -> [v |-> <<>>, ok |-> FALSE]     \* not R's syntax
Dep(d0) ==
  LET d == Trim(d0) rest == LTrim(From(d, 2)) IN
  IF ~IsR(d) THEN [v |-> <<>>, ok |-> TRUE]
  ELSE IF rest = <<>> THEN [v |-> <<>>, ok |-> TRUE]     \* R without a version
  ELSE IF At(rest, 1) = "lp" /\ rest[Len(rest)] = "rp" /\ Len(rest) >= 2
            /\ \A i \in 2..Len(rest) - 1 : rest[i] \notin {"lp", "rp"}
       THEN Bound(Trim(SubSeq(rest, 2, Len(rest) - 1)))
  ELSE [v |-> <<>>, ok |-> FALSE]

RECURSIVE AllDeps(_)
AllDeps(ds) == IF ds = <<>> THEN [v |-> <<>>, ok |-> TRUE]
               ELSE LET h == Dep(ds[1]) t == AllDeps(Tail(ds)) IN [v |-> h.v \o t.v, ok |-> h.ok /\ t.ok]
Versions(value) == AllDeps(SplitOn(value, "comma"))

(* ---- the file, line by line ---- *)
VARIABLES key,    \* the field being read: "Depends", "other" or "none"
          cur,    \* its value so far
          dep     \* the value of the last complete Depends field
dvars == <<key, cur, dep>>
DInit == key = "none" /\ cur = <<>> /\ dep = <<>>
Value(l) == IF key = "Depends" THEN cur ELSE dep
Line(ln) ==
  LET h == At(ln, 1) IN
  CASE h \in {"Depends", "Imports"} ->
         /\ dep' = IF key = "Depends" THEN cur ELSE dep
         /\ key' = (IF h = "Depends" THEN "Depends" ELSE "other") /\ cur' = From(ln, 2)
    [] h = "in" -> /\ cur' = cur \o <<"sp">> \o From(ln, 2) /\ UNCHANGED <<key, dep>>
    [] OTHER -> UNCHANGED dvars
Final == IF key = "Depends" THEN cur ELSE dep
=============================================================================
