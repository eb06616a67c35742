------------------------------ MODULE Rewrite ------------------------------
(***************************************************************************)
(* The pattern rules as a rewrite system over R expressions.  A term is      *)
(* <<op, child, ...>>; a leaf is <<name>>.  Parentheses are nodes of their    *)
(* own, as in R's parse tree; a named argument is <<"arg", <<name>>, value>>, and   *)
(* the name of a call that a pipe leads into stands for a call without arguments. *)
(* A violation is a place where a rule's pattern   *)
(* stands; fixing rewrites places one at a time, in any order, until nothing   *)
(* is left to fix.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Arrow   \* the assignment operator the project prefers
VARIABLES orig, term, last
rvars == <<orig, term, last>>

Unary == {"!", "neg"}
Binary == {"=", "<-", "->", "~", "|", "||", "&", "&&", "==", "!=", "<", ">", "<=", ">=", "+", "*", "%in%", "%||%", "|>", "%>%", ":", "^"}
Comparison == {"==", "!=", "<", ">", "<=", ">="}
(* R's precedences (?Syntax); everything else binds tightest *)
Prec(op) == CASE op \in {"if", "while", "repeat", "for"} -> 1 [] op = "=" -> 2 [] op = "<-" -> 3 [] op = "->" -> 4 [] op = "~" -> 5 [] op \in {"|", "||"} -> 6 [] op \in {"&", "&&"} -> 7
              [] op = "!" -> 8 [] op \in Comparison -> 9 [] op = "+" -> 10 [] op = "*" -> 11 [] op \in {"%in%", "%||%", "|>", "%>%"} -> 12 [] op = ":" -> 13
              [] op = "neg" -> 14 [] op = "^" -> 15 [] OTHER -> 20
(* may term c stand as child i of op without parentheses? *)
Fits(op, i, n, c) ==
  LET p == Prec(op) q == Prec(c[1]) IN
  CASE op = "if" -> q > 2 /\ ~(i = 2 /\ n = 3 /\ q = 1)
    [] op = "{" -> TRUE
    [] op = "(" -> TRUE
    [] op \in Unary -> q >= p
    [] op \in Comparison -> q > p
    [] op \in {"<-", "=", "^"} -> IF i = 1 THEN q > p ELSE q >= p
    [] op \in Binary -> IF i = 1 THEN q >= p ELSE q > p
    [] op = "[" -> IF i = 1 THEN q >= 20 ELSE q > 2
    [] OTHER -> q > 2
Wrap(op, i, n, c) == IF Fits(op, i, n, c) THEN c ELSE <<"(", c>>
Mk(op, args) == <<op>> \o [i \in 1..Len(args) |-> Wrap(op, i, Len(args), args[i])]
Args(t) == Tail(t)
Is(t, op, n) == t[1] = op /\ Len(t) = n + 1
T == <<"TRUE">>  F == <<"FALSE">>
Inner(t) == IF Is(t, "(", 1) THEN t[2] ELSE t
Single(t) == IF Is(t, "{", 1) THEN t[2] ELSE t
Flip(op) == CASE op = "<" -> ">=" [] op = ">=" -> "<" [] op = ">" -> "<=" [] op = "<=" -> ">" [] op = "==" -> "!=" [] op = "!=" -> "=="

(* ---- calls and their arguments ---- *)
Pipes == {"|>", "%>%"}
IsCall(t) == Len(t) > 1 /\ t[1] \notin (Unary \cup Binary \cup {"(", "{", "if", "while", "repeat", "for", "[", "arg"})
Un(t) == SelectSeq(Tail(t), LAMBDA a : a[1] # "arg")
Na(t) == SelectSeq(Tail(t), LAMBDA a : a[1] = "arg")
ValOf(a) == IF a[1] = "arg" THEN a[3] ELSE a
Names(t) == {a[2][1] : a \in {Na(t)[k] : k \in 1..Len(Na(t))}}
Named(t, name) == SelectSeq(Tail(t), LAMBDA a : a[1] = "arg" /\ a[2][1] = name)
Without(t, name) == SelectSeq(Tail(t), LAMBDA a : ~(a[1] = "arg" /\ a[2][1] = name))
(* the argument called `name`, or the unnamed one at `pos`: <<value>> or <<>> *)
Given(t, name, pos) == IF name \in Names(t) THEN <<Named(t, name)[1][3]>> ELSE IF Len(Un(t)) >= pos THEN <<Un(t)[pos]>> ELSE <<>>
RECURSIVE DropAt(_, _)
DropAt(as, pos) == IF as = <<>> THEN <<>> ELSE IF as[1][1] = "arg" THEN <<as[1]>> \o DropAt(Tail(as), pos)
                   ELSE IF pos = 1 THEN Tail(as) ELSE <<as[1]>> \o DropAt(Tail(as), pos - 1)
Drop(t, name, pos) == IF name \in Names(t) THEN Without(t, name) ELSE DropAt(Tail(t), pos)
(* the values of `formals`, matched as R does: by name, then the unnamed ones in order; <<>> where there is none *)
RECURSIVE MatchFrom(_, _, _)
MatchFrom(t, formals, rest) ==
  IF formals = <<>> THEN <<>>
  ELSE IF Head(formals) \in Names(t) THEN <<<<Named(t, Head(formals))[1][3]>>>> \o MatchFrom(t, Tail(formals), rest)
  ELSE IF rest = <<>> THEN <<<<>>>> \o MatchFrom(t, Tail(formals), rest)
  ELSE <<<<Head(rest)>>>> \o MatchFrom(t, Tail(formals), Tail(rest))
Match(t, formals) ==
  LET m == MatchFrom(t, formals, Un(t)) IN
  IF Cardinality({k \in 1..Len(m) : m[k] # <<>>}) = Len(t) - 1 THEN m ELSE <<>>   \* there are other arguments
Hole == <<"_">>

(* outer(inner(...)), or the same as a pipe: what the inner call is given, or <<>>.  Arguments of the outer call that say nothing about the result may stand there *)
Droppable == {"na.rm", "arr.ind", "useNames", "info", "label"}
Nested(t, outer, inner, piped) ==
  IF t[1] = "|>" THEN
    LET c == t[3] IN
    IF c[1] # outer \/ ~(Names(c) \subseteq Droppable) \/ Un(c) # <<>> THEN <<>>
    ELSE IF t[2][1] = inner /\ Len(t[2]) > 1 THEN Tail(t[2])
    ELSE IF Is(t[2], "|>", 2) /\ t[2][3][1] = inner /\ Un(t[2][3]) = <<>> /\ \A k \in 2..Len(t[2][3]) : ValOf(t[2][3][k]) # Hole
         THEN <<t[2][2]>> \o Tail(t[2][3]) ELSE <<>>
  ELSE IF t[1] = outer /\ ~piped /\ Names(t) \subseteq Droppable /\ Len(Un(t)) = 1
       THEN LET i == Un(t)[1] IN IF i[1] = inner /\ Len(i) > 1 THEN Tail(i) ELSE <<>>
  ELSE <<>>

Par(c) == IF Len(c) = 1 /\ c[1] \in {"a", "b", "x"} THEN c ELSE <<"(", c>>
No == <<>>
(* a violation: its rule, whether it is one the tool rewrites, and to what; where it is reported, from the term *)
V(rule, new) == {[rule |-> rule, fix |-> TRUE, new |-> new, at |-> <<>>]}
W(rule) == {[rule |-> rule, fix |-> FALSE, new |-> <<"x">>, at |-> <<>>]}
Not(e) == Mk("!", <<e>>)

(* `up`: the operators above, the nearest first; an if (a while) and its condition is "if?" ("while?"), a pipe and what it leads into "|>2" *)
Piped(up) == up # <<>> /\ up[1] = "|>2"
Condition(up) == up # <<>> /\ up[1] \in {"if?", "while?"}
AnyIsNa(t, up) == LET e == Nested(t, "any", "is.na", Piped(up)) IN
   (IF e # No THEN V("any_is_na", Mk("anyNA", e)) ELSE {})
   \cup (IF Is(t, "%in%", 2) /\ t[2] = <<"NA">> /\ t[3] # <<"NA">> THEN V("any_is_na", Mk("anyNA", <<t[3]>>)) ELSE {})
AnyDuplicated(t, up) == LET e == Nested(t, "any", "duplicated", Piped(up)) IN
   IF e # No THEN V("any_duplicated", Mk(">", <<Mk("anyDuplicated", e), <<"0">>>>)) ELSE {}
LengthLevels(t, up) == LET e == Nested(t, "length", "levels", Piped(up)) IN IF e # No THEN V("length_levels", Mk("nlevels", e)) ELSE {}
WhichGrepl(t, up) == LET e == Nested(t, "which", "grepl", Piped(up)) IN IF e # No THEN V("which_grepl", Mk("grep", e)) ELSE {}
OuterNegation(t, up) ==
   IF t[1] \in {"any", "all"} /\ Len(t) = 2 /\ t[2][1] = "!" /\ t[2][2][1] \notin Unary /\ ~Piped(up)
      /\ ~(up # <<>> /\ up[1] = "!" /\ ~(Len(up) > 1 /\ up[2] \in Unary))
   THEN V("outer_negation", Not(Mk(IF t[1] = "any" THEN "all" ELSE "any", <<t[2][2]>>))) ELSE {}
ComparisonNegation(t) ==
   IF Is(t, "!", 1) /\ Is(t[2], "(", 1) /\ t[2][2][1] \in Comparison
   THEN V("comparison_negation", Mk(Flip(t[2][2][1]), <<t[2][2][2], t[2][2][3]>>)) ELSE {}
RedundantEquals(t) ==
   IF t[1] \notin {"==", "!="} THEN {} ELSE
   LET lit == IF t[2] = T \/ (t[2] # F /\ t[3] = T) THEN "T" ELSE IF t[2] = F \/ t[3] = F THEN "F" ELSE ""
       other == IF t[2] = T THEN t[3] ELSE IF t[3] = T THEN t[2] ELSE IF t[2] = F THEN t[3] ELSE t[2]
       same == lit = (IF t[1] = "==" THEN "T" ELSE "F")
   IN IF t[2] \notin {T, F} /\ t[3] \notin {T, F} THEN {}
      ELSE V("redundant_equals", IF (IF T \in {t[2], t[3]} THEN t[1] = "==" ELSE t[1] = "!=") THEN other ELSE Not(other))
RedundantIfelse(t, up) ==
   IF t[1] \notin {"ifelse", "if_else", "fifelse"} \/ Len(t) # 4 \/ Piped(up) THEN {} ELSE
   LET dplyr == t[1] = "if_else"
       c == Given(t, IF dplyr THEN "condition" ELSE "test", 1) y == Given(t, IF dplyr THEN "true" ELSE "yes", 2) n == Given(t, IF dplyr THEN "false" ELSE "no", 3)
   IN IF c = <<>> \/ y \notin {<<T>>, <<F>>} \/ n \notin {<<T>>, <<F>>} THEN {}
      ELSE IF y = n THEN W("redundant_ifelse")
      ELSE V("redundant_ifelse", IF y = <<T>> THEN c[1] ELSE Mk("!", <<IF c[1][1] = "(" THEN c[1] ELSE <<"(", c[1]>>>>))
LengthTest(t, up) ==
   IF t[1] = "length" /\ Len(t) = 2 /\ ~Piped(up) /\ ValOf(t[2])[1] \in Comparison
   THEN LET e == ValOf(t[2]) IN V("length_test", Mk(e[1], <<Mk("length", <<e[2]>>), e[3]>>)) ELSE {}
Equals(t, lit, fn, rule) ==
   IF t[1] \in {"==", "!=", "%in%"} /\ Len(t) = 3 /\ (t[2] = <<lit>>) # (t[3] = <<lit>>) /\ ~(t[1] = "%in%" /\ t[2] = <<lit>> /\ lit # "NULL")
   THEN LET e == Mk(fn, <<IF t[2] = <<lit>> THEN t[3] ELSE t[2]>>) IN V(rule, IF t[1] = "!=" THEN Not(e) ELSE e) ELSE {}
AllEqual(t, up) ==
   (LET e == Nested(t, "isFALSE", "all.equal", Piped(up)) IN IF e # No THEN V("all_equal", Not(Mk("isTRUE", <<Mk("all.equal", e)>>))) ELSE {}) \cup
   (IF t[1] = "all.equal" /\ Len(t) > 1 /\ (Condition(up) \/ (up # <<>> /\ up[1] = "!" /\ ~(Len(up) > 1 /\ up[2] \in Unary)))
    THEN V("all_equal", Mk("isTRUE", <<t>>)) ELSE {})
Coalesce(t) ==
   IF t[1] # "if" \/ Len(t) # 4 THEN {} ELSE
   LET c == t[2] many == (Len(t[3]) > 2 /\ t[3][1] = "{") \/ (Len(t[4]) > 2 /\ t[4][1] = "{")
       hit == IF Is(c, "is.null", 1) THEN <<c[2], Single(t[4]), Single(t[3])>>
              ELSE IF Is(c, "!", 1) /\ Is(c[2], "is.null", 1) THEN <<c[2][2], Single(t[3]), Single(t[4])>> ELSE <<>>
   IN IF hit = <<>> THEN {} ELSE IF hit[1] # hit[2] THEN {} ELSE IF many THEN W("coalesce") ELSE V("coalesce", Mk("%||%", <<hit[1], hit[3]>>))
Assignment(t) ==
   IF Is(t, IF Arrow = "<-" THEN "=" ELSE "<-", 2) THEN V("assignment", Mk(Arrow, <<t[2], t[3]>>))
   ELSE IF Is(t, "->", 2) THEN V("assignment", Mk(Arrow, <<t[3], t[2]>>)) ELSE {}
Nesting(t) ==
   IF Is(t, "if", 2) /\ Is(t[3], "{", 1) /\ Is(t[3][2], "if", 2)
   THEN V("unnecessary_nesting", Mk("if", <<Mk("&&", <<Par(t[2]), Par(t[3][2][2])>>), t[3][2][3]>>)) ELSE {}
IsNumeric(t) == IF Is(t, "||", 2) /\ {t[2][1], t[3][1]} = {"is.numeric", "is.integer"} /\ Args(t[2]) = Args(t[3])
   THEN V("is_numeric", Mk("is.numeric", Args(t[2]))) ELSE {}
(* x[order(x)], the options of order() being kept; its other arguments are further vectors *)
Sort(t) == IF Is(t, "[", 2) /\ t[3][1] = "order" /\ Un(t[3]) = <<t[2]>> /\ Names(t[3]) \subseteq {"na.last", "decreasing", "method"}
   THEN V("sort", Mk("sort", <<t[2]>> \o Named(t[3], "na.last") \o Named(t[3], "decreasing") \o Named(t[3], "method"))) ELSE {}
(* substr(x, 1L, 3L) == y *)
StringBoundary(t) ==
   IF t[1] \notin {"==", "!="} THEN {} ELSE
   LET s == IF IsCall(t[2]) THEN t[2] ELSE t[3] o == IF IsCall(t[2]) THEN t[3] ELSE t[2]
       m == IF ~IsCall(s) THEN <<>> ELSE IF s[1] = "substr" THEN Match(s, <<"x", "start", "stop">>) ELSE IF s[1] = "substring" THEN Match(s, <<"text", "first", "last">>) ELSE <<>>
   IN IF Len(m) # 3 \/ <<>> \in {m[1], m[2], m[3]} THEN {}
      ELSE LET end == m[3][1]
               fn == IF m[2][1] \in {<<"1">>, <<"1L">>} THEN "startsWith" ELSE IF end[1] = "nchar" /\ Len(end) = 2 /\ ValOf(end[2]) = m[1][1] THEN "endsWith" ELSE ""
               new == Mk(fn, <<m[1][1], o>>)
           IN IF fn = "" THEN {} ELSE V("string_boundary", IF t[1] = "!=" THEN Not(new) ELSE new)
Lengths(t, up) ==
   LET m == IF Piped(up) THEN <<>> ELSE CASE t[1] = "sapply" -> Match(t, <<"X", "FUN">>) [] t[1] = "vapply" -> Match(t, <<"X", "FUN", "FUN.VALUE">>)
                                          [] t[1] \in {"map_int", "map_dbl"} -> Match(t, <<".x", ".f">>) [] OTHER -> <<>>
   IN IF m # <<>> THEN IF m[1] # <<>> /\ m[2] = <<<<"length">>>> THEN V("lengths", Mk("lengths", m[1])) ELSE {} ELSE {}
List2df(t, up) ==
   IF t[1] # "do.call" \/ Len(t) # 3 \/ Piped(up) THEN {} ELSE
   LET a == Given(t, "args", 2) IN
   IF Given(t, "what", 1) \in {<<<<"cbind.data.frame">>>>, <<<<"s:cbind.data.frame">>>>} /\ a # <<>> THEN V("list2df", Mk("list2DF", a)) ELSE {}

(* ---- sequences ---- *)
Sizes == {"length", "nrow", "ncol", "NROW", "NCOL"}
SeqOf(c) == IF c[1] = "length" THEN Mk("seq_along", Tail(c)) ELSE Mk("seq_len", <<c>>)
One == {<<"1">>, <<"1L">>}
Seq1(t) == IF Is(t, ":", 2) /\ t[2] \in One /\ IsCall(t[3]) /\ t[3][1] \in Sizes THEN V("seq", SeqOf(t[3])) ELSE {}
Seq2(t, up) == IF Is(t, "seq", 1) /\ ~Piped(up) /\ IsCall(t[2]) /\ t[2][1] \in Sizes THEN V("seq2", SeqOf(t[2])) ELSE {}
SampleInt(t, up) ==
   IF t[1] # "sample" \/ Len(t) = 1 \/ Piped(up) THEN {} ELSE
   LET name == IF "x" \in Names(t) THEN "x" ELSE "n" g == Given(t, name, 1) IN
   IF g = <<>> THEN {} ELSE IF Is(g[1], ":", 2) /\ g[1][2] \in One THEN V("sample_int", Mk("sample.int", <<g[1][3]>> \o Drop(t, name, 1))) ELSE {}
(* ---- apply(), system.file(), grep() ---- *)
MatrixApply(t, up) ==
   IF t[1] # "apply" \/ Piped(up) THEN {} ELSE
   LET x == Given(t, "X", 1) m == Given(t, "MARGIN", 2) f == Given(t, "FUN", 3) n == Named(t, "na.rm") IN
   IF x = <<>> \/ m = <<>> \/ f = <<>> \/ Len(t) - 1 > (IF n = <<>> THEN 3 ELSE 4) THEN {}
   ELSE IF f[1] \in {<<"mean">>, <<"sum">>} /\ m[1] \in One \cup {<<"2">>, <<"2L">>}
   THEN V("matrix_apply", Mk(IF m[1] \in One THEN (IF f[1] = <<"mean">> THEN "rowMeans" ELSE "rowSums") ELSE (IF f[1] = <<"mean">> THEN "colMeans" ELSE "colSums"), x \o n)) ELSE {}
SystemFile(t, up) ==
   IF t[1] # "system.file" \/ Piped(up) \/ Len(Un(t)) # 1 THEN {} ELSE
   LET p == Un(t)[1] IN IF p[1] = "file.path" /\ Len(p) > 1 /\ Names(p) = {} THEN V("system_file", Mk("system.file", Tail(p) \o Na(t))) ELSE {}
Grepv(t, up) ==
   IF t[1] # "grep" \/ Len(t) = 1 \/ Given(t, "value", 5) # <<T>> THEN {}
   ELSE IF "value" \notin Names(t) /\ (Len(Un(t)) > 5 \/ Piped(up)) THEN {} ELSE V("grepv", Mk("grepv", Drop(t, "value", 5)))
(* a pattern without special characters *)
FixedRegex(t, up) ==
   IF Len(t) = 1 \/ t[1] \notin {"grep", "gsub", "sub", "regexpr", "gregexpr", "regexec", "grepl"} THEN {} ELSE
   LET pos == IF t[1] \in {"grep", "gsub", "sub"} THEN 6 ELSE 5
       fixed == Given(t, "fixed", pos) case == Given(t, "ignore.case", IF t[1] \in {"gsub", "sub"} THEN 4 ELSE 3)
   IN IF fixed \notin {<<>>, <<F>>} \/ case = <<T>> \/ Given(t, "pattern", 1) # <<<<"str">>>> \/ (Piped(up) /\ "pattern" \notin Names(t)) THEN {}
      ELSE V("fixed_regex", Mk(t[1], (IF fixed = <<F>> THEN Drop(t, "fixed", pos) ELSE Tail(t)) \o <<<<"arg", <<"fixed">>, T>>>>))
(* ---- classes ---- *)
Strings == {"str", "s:a.b", "s:integer", "s:double", "s:character", "s:NULL", "s:list", "s:cbind.data.frame"}
IsString(t) == Len(t) = 1 /\ t[1] \in Strings
ClassOf(l, r) == IF l[1] = "class" /\ Len(l) > 1 /\ IsString(r) THEN <<l[2], r>> ELSE IF r[1] = "class" /\ Len(r) > 1 /\ IsString(l) THEN <<r[2], l>> ELSE <<>>
ClassEquals(t, up) ==
   (IF t[1] \in {"==", "!=", "%in%"} /\ Condition(up)
    THEN LET c == ClassOf(t[2], t[3]) IN IF c = <<>> THEN {} ELSE V("class_equals", IF t[1] = "!=" THEN Not(Mk("inherits", c)) ELSE Mk("inherits", c)) ELSE {}) \cup
   (IF t[1] = "identical" /\ Len(t) > 2 /\ ~Piped(up)
    THEN LET c == ClassOf(ValOf(t[2]), ValOf(t[3])) IN IF c = <<>> THEN {} ELSE V("class_equals", Mk("inherits", c)) ELSE {})
(* ---- conditions ---- *)
Bitwise(e) == IsString(e) \/ (IsCall(e) /\ e[1] \in {"as.raw", "as.octmode", "as.hexmode"})
VectorLogic(t, up) == IF t[1] \in {"&", "|"} /\ Condition(up) /\ ~Bitwise(t[2]) /\ ~Bitwise(t[3]) THEN W("vector_logic") ELSE {}
RECURSIVE Always(_)
(* what a condition always is: "T", "F", or "?" *)
Always(c) ==
   CASE c \in {T, <<"1">>, <<"1L">>, <<"2">>, <<"2L">>, <<".5">>, <<"0.5">>, <<"0x10">>, <<"1e5L">>, <<"Inf">>} -> "T"
     [] c \in {F, <<"0">>, <<"0x0">>, <<"0L">>} -> "F"
     [] c[1] \in {"(", "neg"} -> Always(c[2])
     [] c[1] = "!" -> (LET v == Always(c[2]) IN CASE v = "T" -> "F" [] v = "F" -> "T" [] OTHER -> "?")
     [] c[1] \in {"&&", "&"} -> (LET l == Always(c[2]) r == Always(c[3]) IN IF "F" \in {l, r} THEN "F" ELSE IF l = "T" THEN r ELSE "?")
     [] c[1] \in {"||", "|"} -> (LET l == Always(c[2]) r == Always(c[3]) IN IF "T" \in {l, r} THEN "T" ELSE IF l = "F" THEN r ELSE "?")
     [] OTHER -> "?"
IfAlwaysTrue(t) == IF Is(t, "if", 2) /\ Always(t[2]) = "T" THEN {[rule |-> "if_always_true", fix |-> FALSE, new |-> <<"x">>, at |-> <<1>>]} ELSE {}
Repeat(t) == IF Is(t, "while", 2) /\ t[2] = T THEN V("repeat", <<"repeat", IF t[3][1] = "{" THEN t[3] ELSE <<"{", t[3]>>>>) ELSE {}
TrueFalseSymbol(t, up) == IF t \in {<<"T">>, <<"F">>} /\ ~(up # <<>> /\ up[1] \in {"~", "arg1", "|>2"}) THEN W("true_false_symbol") ELSE {}
LeadingZero(t) == IF t = <<".5">> THEN V("numeric_leading_zero", <<"0.5">>) ELSE {}
(* ---- expectations ---- *)
Fn(e, f) == e[1] = f /\ Len(e) > 1
TypeOf(f) == CASE f = "is.double" -> <<"s:double">> [] f = "is.character" -> <<"s:character">> [] f = "is.null" -> <<"s:NULL">> [] f = "is.list" -> <<"s:list">> [] OTHER -> <<>>
Equality(t) ==
   IF Len(t) # 3 THEN {} ELSE
   LET os == Given(t, "object", 1) es == Given(t, "expected", 2) IN IF os = <<>> \/ es = <<>> THEN {} ELSE
   LET o == os[1] e == es[1]
       len == IF Fn(o, "length") THEN <<o, e>> ELSE IF Fn(e, "length") THEN <<e, o>> ELSE <<>>
       cls == IF IsCall(o) THEN (IF o[1] = "class" THEN <<o, e>> ELSE <<>>) ELSE IF Fn(e, "class") THEN <<e, o>> ELSE <<>>
       typ == IF Fn(o, "typeof") THEN <<o, e>> ELSE IF Fn(e, "typeof") THEN <<e, o>> ELSE <<>>
       lit == IF o \in {T, F} THEN <<o, e>> ELSE IF e \in {T, F} THEN <<e, o>> ELSE <<>>
       null == IF e = <<"NULL">> THEN o ELSE IF o = <<"NULL">> THEN e ELSE <<>>
       Of(p, rule, fn) == IF p = <<>> THEN {} ELSE LET x == Given(p[1], "x", 1) IN IF x = <<>> THEN {} ELSE V(rule, Mk(fn, <<x[1], p[2]>>))
   IN (IF len # <<>> THEN IF Fn(len[2], "length") THEN {} ELSE Of(len, "expect_length", "expect_length") ELSE {})
      \cup (IF Fn(o, "names") /\ ~Fn(e, "names") THEN Of(<<o, e>>, "expect_named", "expect_named") ELSE {})
      \cup (IF cls # <<>> THEN IF IsString(cls[2]) /\ cls[2][1] \in {"str", "s:a.b", "s:cbind.data.frame"} THEN Of(cls, "expect_s3_class", "expect_s3_class") ELSE {} ELSE {})
      \cup Of(typ, "expect_type", "expect_type")
      \cup (IF lit # <<>> THEN V("expect_true_false", Mk(IF lit[1] = T THEN "expect_true" ELSE "expect_false", <<lit[2]>>)) ELSE {})
      \cup (IF null # <<>> THEN V("expect_null", Mk("expect_null", <<null>>)) ELSE {})
Truth(t, up) ==
   LET rule == IF t[1] = "expect_true" THEN "expect_match" ELSE "expect_no_match" os == Given(t, "object", 1) alone == Len(t) = 2 IN
   IF os = <<>> THEN {} ELSE
   LET o == os[1]
       given == IF Fn(o, "is.null") THEN Given(o, "x", 1) ELSE <<>>
       typed == IF IsCall(o) /\ TypeOf(o[1]) # <<>> THEN Given(o, "x", 1) ELSE <<>>
       ps == IF Fn(o, "grepl") THEN Given(o, "pattern", 1) ELSE <<>> xs == IF Fn(o, "grepl") THEN Given(o, "x", 2) ELSE <<>>
       used == (IF "pattern" \in Names(o) THEN 0 ELSE 1) + (IF "x" \in Names(o) THEN 0 ELSE 1)
   IN (IF alone /\ o[1] = "!" /\ o[2][1] # "!"
       THEN V("expect_not", Mk(IF t[1] = "expect_true" THEN "expect_false" ELSE "expect_true", <<Inner(o[2])>>)) ELSE {})
      \cup (IF alone /\ t[1] = "expect_true" /\ given # <<>> THEN V("expect_null", Mk("expect_null", given)) ELSE {})
      \cup (IF alone /\ t[1] = "expect_true" /\ typed # <<>> THEN V("expect_type", Mk("expect_type", <<typed[1], TypeOf(o[1])>>)) ELSE {})
      \cup (IF ps = <<>> \/ xs = <<>> THEN {} ELSE IF ~alone \/ Len(Un(o)) > used THEN W(rule)
            ELSE V(rule, Mk(rule, <<xs[1], ps[1]>> \o SelectSeq(Na(o), LAMBDA a : a[2][1] \notin {"pattern", "x"}))))
Expectations(t, up) ==
   IF t[1] = "|>" THEN
      (IF Nested(t, "expect_true", "grepl", FALSE) # No /\ ~(up # <<>> /\ up[1] = "!") THEN W("expect_match") ELSE {})
      \cup (IF Nested(t, "expect_false", "grepl", FALSE) # No /\ ~(up # <<>> /\ up[1] = "!") THEN W("expect_no_match") ELSE {})
   ELSE IF Piped(up) \/ Len(t) = 1 THEN {}
   ELSE IF t[1] \in {"expect_equal", "expect_identical"} THEN Equality(t)
   ELSE IF t[1] \in {"expect_true", "expect_false"} THEN Truth(t, up) ELSE {}

(* ---- what is only reported ---- *)
EmptyAssignment(t) == IF (t[1] \in {"=", "<-"} /\ t[3] = <<"{">>) \/ (t[1] = "->" /\ t[2] = <<"{">>) THEN W("empty_assignment") ELSE {}
(* what stands above an assignment, up to the next braces: conditions, arguments, or neither *)
Conditions == {"if?", "while?", "for?"}
Elsewhere == Unary \cup Binary \cup {"(", "{", "if", "while", "repeat", "for", "for1", "for:i", "for:x", "|>2", "arg1", "["}
Argument(u) == u \notin Elsewhere \cup Conditions                                        \* of a call, of brackets ("[2"), or a named one ("arg")
RECURSIVE UpToBraces(_)
UpToBraces(up) == IF up = <<>> \/ up[1] = "{" THEN <<>> ELSE <<up[1]>> \o UpToBraces(Tail(up))
RECURSIVE CallAbove(_)
CallAbove(up) == IF up = <<>> THEN "" ELSE IF Argument(up[1]) /\ up[1] \notin {"[2", "arg"} THEN up[1] ELSE CallAbove(Tail(up))
Quoting == {"expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"}
ImplicitAssignment(t, up) ==
   IF t[1] \notin {"<-", "->"} THEN {} ELSE
   LET a == UpToBraces(up) given == \E k \in 1..Len(a) : Argument(a[k]) cond == \E k \in 1..Len(a) : a[k] \in Conditions
   IN IF (given \/ cond) /\ ~(given /\ CallAbove(up) \in Quoting) THEN W("implicit_assignment") ELSE {}
RECURSIVE Mentions(_, _)
(* v is used in e; what is inside of brackets may be a column *)
Mentions(e, v) ==
   IF Len(e) = 1 THEN e = v
   ELSE IF IsCall(e) THEN v[1] \in Names(e) \/ \E k \in 2..Len(e) : Mentions(ValOf(e[k]), v)
   ELSE IF e[1] \in Pipes THEN Mentions(e[2], v) \/ (Len(e[3]) > 1 /\ Mentions(e[3], v))
   ELSE IF e[1] \in Binary THEN Mentions(e[2], v) \/ Mentions(e[3], v)
   ELSE IF e[1] \in Unary \cup {"(", "["} THEN Mentions(e[2], v) ELSE FALSE
ForLoops(t, up) ==
   IF t[1] # "for" THEN {} ELSE
   (IF Mentions(t[3], t[2]) THEN W("for_loop_index") ELSE {})
   \cup (IF \E k \in 1..Len(up) : up[k] = (IF t[2] = <<"i">> THEN "for:i" ELSE "for:x") THEN W("for_loop_dup_index") ELSE {})
Bare(n) == IF n = "`k`" THEN "k" ELSE n
DuplicatedArguments(t) ==
   IF IsCall(t) /\ t[1] \notin {"c", "mutate", "summarize", "transmute"} /\ (\E i, j \in 1..Len(Na(t)) : i # j /\ Bare(Na(t)[i][2][1]) = Bare(Na(t)[j][2][1]))
   THEN W("duplicated_arguments") ELSE {}
Undesirable(t, up) == IF t[1] = "browser" /\ (Len(t) > 1 \/ Piped(up)) THEN W("browser") \cup W("undesirable_function") ELSE {}
DownloadFile(t, up) ==
   IF t[1] # "download.file" \/ (Len(t) = 1 /\ ~Piped(up)) THEN {} ELSE
   LET p == IF Piped(up) THEN 1 ELSE 0 method == Given(t, "method", 3 - p) mode == Given(t, "mode", 5 - p)
   IN IF method \in {<<<<"s:wget">>>>, <<<<"s:curl">>>>} \/ mode \notin {<<>>, <<<<"s:w">>>>, <<<<"s:a">>>>} THEN {} ELSE W("download_file")

Root(t, up) == AnyIsNa(t, up) \cup AnyDuplicated(t, up) \cup LengthLevels(t, up) \cup WhichGrepl(t, up) \cup OuterNegation(t, up) \cup ComparisonNegation(t)
   \cup RedundantEquals(t) \cup RedundantIfelse(t, up) \cup LengthTest(t, up) \cup Equals(t, "NA", "is.na", "equals_na") \cup Equals(t, "NaN", "is.nan", "equals_nan")
   \cup Equals(t, "NULL", "is.null", "equals_null") \cup AllEqual(t, up) \cup Coalesce(t) \cup Assignment(t) \cup Nesting(t) \cup IsNumeric(t)
   \cup Sort(t) \cup StringBoundary(t) \cup Lengths(t, up) \cup List2df(t, up) \cup Seq1(t) \cup Seq2(t, up) \cup SampleInt(t, up) \cup MatrixApply(t, up) \cup SystemFile(t, up)
   \cup Grepv(t, up) \cup FixedRegex(t, up) \cup ClassEquals(t, up) \cup VectorLogic(t, up) \cup IfAlwaysTrue(t) \cup Repeat(t) \cup TrueFalseSymbol(t, up) \cup LeadingZero(t) \cup Expectations(t, up)
   \cup EmptyAssignment(t) \cup ImplicitAssignment(t, up) \cup ForLoops(t, up) \cup DuplicatedArguments(t) \cup Undesirable(t, up) \cup DownloadFile(t, up)

Place(t, i) ==
   CASE t[1] = "if" /\ i = 1 -> "if?" [] t[1] = "while" /\ i = 1 -> "while?" [] t[1] \in Pipes /\ i = 2 -> "|>2" [] t[1] = "arg" /\ i = 1 -> "arg1"
     [] t[1] = "[" /\ i = 2 -> "[2" [] t[1] = "for" /\ i = 1 -> "for1" [] t[1] = "for" /\ i = 2 -> "for?" [] OTHER -> t[1]
Above(t, i, up) == <<Place(t, i)>> \o (IF t[1] = "for" THEN <<IF t[2] = <<"i">> THEN "for:i" ELSE "for:x">> ELSE <<>>) \o up
RECURSIVE Viols(_, _, _)
(* every violation of a term, with its path *)
Viols(t, up, path) ==
   {[rule |-> v.rule, fix |-> v.fix, path |-> path \o v.at] : v \in Root(t, up)}
   \cup UNION {Viols(t[i + 1], Above(t, i, up), Append(path, i)) : i \in 1..(Len(t) - 1)}
RECURSIVE Steps(_, _)
(* every term one rewriting away, with the rule *)
Steps(t, up) ==
   {<<v.rule, v.new>> : v \in {x \in Root(t, up) : x.fix}}
   \* a condition in parentheses may get another pair (which keeps it from being rewritten further)
   \cup {<<v.rule, Mk("!", <<<<"(", v.new[2]>>>>)>> : v \in {x \in Root(t, up) : x.rule = "redundant_ifelse" /\ x.fix /\ Is(x.new, "!", 1) /\ Is(x.new[2], "(", 1)}}
   \cup UNION {{<<s[1], Mk(t[1], [k \in 1..(Len(t) - 1) |-> IF k = i THEN s[2] ELSE t[k + 1]])>> : s \in Steps(t[i + 1], Above(t, i, up))} : i \in 1..(Len(t) - 1)}

RInit(ts) == orig \in ts /\ term = orig /\ last = ""
Fix == \E s \in Steps(term, <<>>) : term' = s[2] /\ last' = s[1] /\ UNCHANGED orig
Normal == Steps(term, <<>>) = {}

RECURSIVE Strip(_)
(* without parentheses *)
Strip(t) == IF Is(t, "(", 1) THEN Strip(t[2]) ELSE <<t[1]>> \o [i \in 1..(Len(t) - 1) |-> Strip(t[i + 1])]
RECURSIVE WellFormed(_)
(* parses back to itself *)
WellFormed(t) == \A i \in 1..(Len(t) - 1) : Fits(t[1], i, Len(t) - 1, t[i + 1]) /\ WellFormed(t[i + 1])
StaysCode == WellFormed(term)

(* ---- what terms mean ---- *)
(* logical vectors: sequences of "T", "F" and "N" (missing); other operators have no value here *)
Logical == {"any", "all", "is.na", "anyNA", "!", "(", "&", "|", "ifelse", "TRUE", "FALSE", "a", "b"} \cup Comparison
RECURSIVE Pure(_)
Pure(t) == t[1] \in Logical /\ (t[1] = "ifelse" => Len(t) = 4) /\ (t[1] \in Comparison \cup {"&", "|"} => Len(t) = 3) /\ (Len(t) = 1) = (t[1] \in {"TRUE", "FALSE", "a", "b"}) /\ \A i \in 2..Len(t) : Pure(t[i])
And3(x, y) == IF x = "F" \/ y = "F" THEN "F" ELSE IF x = "N" \/ y = "N" THEN "N" ELSE "T"
Neg3(x) == CASE x = "T" -> "F" [] x = "F" -> "T" [] x = "N" -> "N"
Or3(x, y) == Neg3(And3(Neg3(x), Neg3(y)))
Less3(x, y) == IF x = "N" \/ y = "N" THEN "N" ELSE IF x = "F" /\ y = "T" THEN "T" ELSE "F"
Same3(x, y) == IF x = "N" \/ y = "N" THEN "N" ELSE IF x = y THEN "T" ELSE "F"
Op3(op, x, y) == CASE op = "&" -> And3(x, y) [] op = "|" -> Or3(x, y) [] op = "==" -> Same3(x, y) [] op = "!=" -> Neg3(Same3(x, y))
                   [] op = "<" -> Less3(x, y) [] op = ">" -> Less3(y, x) [] op = "<=" -> Neg3(Less3(y, x)) [] op = ">=" -> Neg3(Less3(x, y))
(* recycled to the longer one *)
Zip(op, v, w) == IF v = <<>> \/ w = <<>> THEN <<>> ELSE
   LET n == IF Len(v) > Len(w) THEN Len(v) ELSE Len(w) IN [i \in 1..n |-> Op3(op, v[((i - 1) % Len(v)) + 1], w[((i - 1) % Len(w)) + 1])]
RECURSIVE Fold(_, _, _)
Fold(op, v, acc) == IF v = <<>> THEN <<acc>> ELSE Fold(op, Tail(v), Op3(op, acc, Head(v)))
RECURSIVE Val(_, _)
Val(t, env) == CASE t[1] = "TRUE" -> <<"T">> [] t[1] = "FALSE" -> <<"F">> [] t[1] \in {"a", "b"} -> env[t[1]]
   [] t[1] = "(" -> Val(t[2], env) [] t[1] = "!" -> (LET v == Val(t[2], env) IN [i \in 1..Len(v) |-> Neg3(v[i])])
   [] t[1] = "any" -> Fold("|", Val(t[2], env), "F") [] t[1] = "all" -> Fold("&", Val(t[2], env), "T")
   [] t[1] = "is.na" -> (LET v == Val(t[2], env) IN [i \in 1..Len(v) |-> IF v[i] = "N" THEN "T" ELSE "F"])
   [] t[1] = "anyNA" -> (LET v == Val(t[2], env) IN <<IF \E i \in 1..Len(v) : v[i] = "N" THEN "T" ELSE "F">>)
   [] t[1] = "ifelse" -> (LET c == Val(t[2], env) y == Val(t[3], env) n == Val(t[4], env) IN
        [i \in 1..Len(c) |-> IF c[i] = "N" THEN "N" ELSE IF c[i] = "T" THEN y[1] ELSE n[1]])
   [] OTHER -> Zip(t[1], Val(t[2], env), Val(t[3], env))
Vectors == UNION {[1..n -> {"T", "F", "N"}] : n \in 0..2}
Few == {<<>>, <<"T">>, <<"N">>, <<"F", "T">>, <<"N", "F">>, <<"T", "N">>}
(* no rewriting of a logical expression changes its value, whatever its variables hold *)
MeaningKept == Pure(orig) => \A va \in Vectors : \A vb \in Few : Val(term, [a |-> va, b |-> vb]) = Val(orig, [a |-> va, b |-> vb])
=============================================================================
