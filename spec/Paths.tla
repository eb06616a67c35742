-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* File kinds by extension; making a path absolute by walking it component  *)
(* by component; showing a path relative to the working directory.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* -- kinds: a file name is a sequence of pieces, "dot" being "." -- *)
LastDot(t) == LET D == {i \in 1..Len(t) : t[i] = "dot"} IN
              IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : j <= i
IsDots(t) == t = <<"dot">> \/ t = <<"dot", "dot">>
Ext(t) == IF IsDots(t) \/ LastDot(t) <= 1 THEN <<>> ELSE SubSeq(t, LastDot(t) + 1, Len(t))
IsR(t) == Ext(t) \in {<<"R">>, <<"r">>}
IsNotebook(t) == Ext(t) \in {<<"Rmd">>, <<"rmd">>, <<"qmd">>, <<"Qmd">>}

(* -- making absolute: a walk -- *)
Step(at, c) == CASE c \in {"dot", "empty"} -> at
                 [] c = "up" -> IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1)
                 [] OTHER -> Append(at, c)
RECURSIVE Walk(_, _)
Walk(at, p) == IF p = <<>> THEN at ELSE Walk(Step(at, p[1]), Tail(p))
Absolute(cwd, isabs, p) == Walk(IF isabs THEN <<>> ELSE cwd, p)

(* -- showing -- *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Shown(cwd, n) == IF IsPrefix(cwd, n) THEN [abs |-> FALSE, p |-> SubSeq(n, Len(cwd) + 1, Len(n))]
                 ELSE [abs |-> TRUE, p |-> n]
=============================================================================
