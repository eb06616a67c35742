------------------------------- MODULE Sprintf -------------------------------
(***************************************************************************)
(* The formats of sprintf(): a machine that reads a format character by      *)
(* character.  A specification is % [n$] flags [width] [.precision] type;    *)
(* width and precision are digits or * or *n$; % followed by % is a literal  *)
(* one.  Specifications and stars without a position use up the arguments    *)
(* one after the other, those with a position name theirs, so that a format  *)
(* needs as many arguments as the larger of both.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLES fmt, st
svars == <<fmt, st>>
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E k \in 1..10 : Digits[k] = c
Value(c) == (CHOOSE k \in 1..10 : Digits[k] = c) - 1
Flags == {"-", "+", " ", "#", "0"}
Types == {"d", "i", "o", "x", "X", "f", "e", "E", "g", "G", "a", "A", "s"}
(* mode: where in a specification the machine is; num: the number being read,
   -1 + 1 = 0 while there is none; pos, star: whether the value has a position, and how many stars there were *)
Start == [mode |-> "text", num |-> 0, read |-> FALSE, zeros |-> TRUE, pos |-> FALSE, stars |-> 0, uses |-> 0, next |-> 0, top |-> 0, lit |-> <<>>, bad |-> FALSE, odd |-> FALSE]
Max(a, b) == IF a > b THEN a ELSE b
Bad(s) == [s EXCEPT !.bad = TRUE, !.mode = "text"]
Clear(s) == [s EXCEPT !.num = 0, !.read = FALSE, !.zeros = TRUE]
In(s, mode) == [Clear(s) EXCEPT !.mode = mode]
Number(s, c) == [s EXCEPT !.num = @ * 10 + Value(c), !.read = TRUE, !.zeros = @ /\ c = "0"]
Ends(s) == [In(s, "text") EXCEPT !.uses = @ + 1, !.next = @ + (IF s.pos THEN 0 ELSE 1)]
(* after flags: width, precision, type *)
Rest(s, c) == IF c = "*" THEN [In(s, "star") EXCEPT !.stars = @ + 1] ELSE IF c = "." THEN In(s, "point") ELSE IF c \in Types THEN Ends(s) ELSE Bad(s)
Later(s, c) == IF c = "." THEN In(s, "point") ELSE IF c \in Types THEN Ends(s) ELSE Bad(s)
(* a star: a position may follow *)
Starred(s, c, then) ==
  IF IsDigit(c) THEN Number(s, c)
  ELSE IF c = "$" /\ s.num > 0 THEN [In(s, IF then = "width" THEN "wide" ELSE "exact") EXCEPT !.top = Max(@, s.num)]
  ELSE IF s.read THEN Bad(s)
  ELSE LET t == [Clear(s) EXCEPT !.next = @ + 1] IN IF then = "width" THEN Later(t, c) ELSE IF c \in Types THEN Ends(t) ELSE Bad(t)
Read(s, c) ==
  IF s.bad THEN s
  ELSE CASE s.mode = "text" -> IF c = "%" THEN [In(s, "percent") EXCEPT !.pos = FALSE, !.stars = 0] ELSE [s EXCEPT !.lit = Append(@, c)]
    [] s.mode = "percent" ->
         IF c = "%" /\ ~s.read THEN [In(s, "text") EXCEPT !.lit = Append(@, "%")]
         ELSE IF IsDigit(c) THEN Number(s, c)
         ELSE IF c = "$" /\ s.num > 0 THEN [In(s, "flags") EXCEPT !.pos = TRUE, !.top = Max(@, s.num)]
         ELSE IF ~s.read /\ c = " " THEN In(s, "blank")
         ELSE IF s.zeros THEN (IF c \in Flags THEN In(s, "flags") ELSE Rest(s, c))
         ELSE Later(s, c)
    [] s.mode = "blank" ->       \* what a position or a percent sign after a blank means is left open
         IF c = "%" \/ (c = "$" /\ s.num > 0) THEN [s EXCEPT !.odd = TRUE]
         ELSE IF IsDigit(c) THEN Number(s, c)
         ELSE IF ~s.read /\ c = " " THEN s
         ELSE IF s.zeros THEN (IF c \in Flags THEN In(s, "flags") ELSE Rest(s, c))
         ELSE Later(s, c)
    [] s.mode = "flags" -> IF c \in Flags THEN s ELSE IF IsDigit(c) THEN In(s, "wide0") ELSE Rest(s, c)
    [] s.mode = "wide0" -> IF IsDigit(c) THEN s ELSE Later(s, c)
    [] s.mode = "star" -> Starred(s, c, "width")
    [] s.mode = "wide" -> Later(s, c)
    [] s.mode = "point" -> IF c = "*" THEN [In(s, "pstar") EXCEPT !.stars = @ + 1] ELSE IF IsDigit(c) THEN In(s, "digits") ELSE IF c \in Types THEN Ends(s) ELSE Bad(s)
    [] s.mode = "digits" -> IF IsDigit(c) THEN s ELSE IF c \in Types THEN Ends(s) ELSE Bad(s)
    [] s.mode = "pstar" -> Starred(s, c, "precision")
    [] s.mode = "exact" -> IF c \in Types THEN Ends(s) ELSE Bad(s)
(* R allows a single star in a specification *)
Odd(s) == s.odd \/ s.stars > 1
Init == fmt = <<>> /\ st = Start
Type(c) == fmt' = Append(fmt, c) /\ st' = LET n == Read(st, c) IN [n EXCEPT !.odd = Odd(n)]

(* what is reported for a format (that is read to its end) and n other arguments, one of which may be `...` *)
Invalid(s) == s.bad \/ s.mode # "text"
Needs(s) == Max(s.next, s.top)
Verdict(s, n, dots) ==
  IF Invalid(s) THEN "invalid"
  ELSE IF s.uses = 0 THEN (IF n = 0 /\ ~dots THEN "constant" ELSE "useless")     \* "constant": is replaced by `lit`
  ELSE IF dots \/ Needs(s) = n THEN "none" ELSE "mismatch"
RECURSIVE Run(_, _)
Run(s, cs) == IF cs = <<>> THEN s ELSE LET n == Read(s, Head(cs)) IN Run([n EXCEPT !.odd = Odd(n)], Tail(cs))
(* ---- what must hold of the machine ---- *)
NeedsSome == ~Invalid(st) /\ ~st.odd /\ st.uses > 0 => Needs(st) > 0
LiteralsOnly == st.uses = 0 /\ ~Invalid(st) => Len(st.lit) <= Len(fmt) /\ \A k \in 1..Len(st.lit) : \E j \in 1..Len(fmt) : fmt[j] = st.lit[k]
OneRun == Run(Start, fmt) = st
=============================================================================
