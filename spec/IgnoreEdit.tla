------------------------------ MODULE IgnoreEdit ------------------------------
(***************************************************************************)
(* Inserting suppression comments into a program.  A program is a term: its  *)
(* tokens, and for every node the interval of tokens it spans.  A comment    *)
(* stands before a token and belongs to the largest node that begins there;  *)
(* it hides the violations of its rule that begin in that node.      *)
(* A comment may only                                                          *)
(* stand where a node begins: a line break there does not change the code.    *)
(*                                                                            *)
(* Insertion goes on until nothing is visible, and puts comments only where    *)
(* they hide something; a comment that is made superfluous by one around it     *)
(* is taken away again.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* tokens of a node; "$1".. are its children *)
Tmpl(k) ==
  CASE k = "x" -> <<"x">> [] k = "T" -> <<"T">>
    [] k = "A" -> <<"any", "(", "is.na", "(", "$1", ")", ")">>
    [] k = "B" -> <<"any", "(", "duplicated", "(", "$1", ")", ")">>
    [] k = "E" -> <<"$1", "==", "NA">>
    [] k = "dead" -> <<"function", "(", ")", "{", "return", "(", "1", ")", ";", "$1", "}">>
    [] k = "dead2" -> <<"function", "(", ")", "{", "return", "(", "1", ")", ";", "$1", ";", "$2", "}">>
    [] k = "call" -> <<"f", "(", "$1", ")">>
    [] k = "call2" -> <<"f", "(", "$1", ",", "$2", ")">>
    [] k = "named" -> <<"f", "(", "k", "=", "$1", ")">>
    [] k = "callee" -> <<"$1", "(", ")">>
    [] k = "plus" -> <<"$1", "+", "$2">>
    [] k = "pipe" -> <<"$1", "|>", "f", "(", "$2", ")">>
    [] k = "assign" -> <<"y", "<-", "$1">>
    [] k = "paren" -> <<"(", "$1", ")">>
    [] k = "minus" -> <<"-", "$1">>
    [] k = "sub" -> <<"x", "[", "$1", "]">>
    [] k = "sub2" -> <<"x", "[[", "$1", "]]">>
    [] k = "of" -> <<"$1", "[", "1", "]">>
    [] k = "dollar" -> <<"$1", "$", "k">>
    [] k = "tilde" -> <<"~", "$1">>
    [] k = "if" -> <<"if", "(", "$1", ")", "$2">>
    [] k = "else" -> <<"if", "(", "x", ")", "$1", "else", "$2">>
    [] k = "elif" -> <<"if", "(", "x", ")", "{", "$1", "}", "else", "if", "(", "$2", ")", "{", "x", "}">>
    [] k = "for" -> <<"for", "(", "i", "in", "$1", ")", "$2">>
    [] k = "while" -> <<"while", "(", "$1", ")", "$2">>
    [] k = "repeat" -> <<"repeat", "$1">>
    [] k = "fun" -> <<"function", "(", "k", "=", "$1", ")", "$2">>
    [] k = "lambda" -> <<"\\", "(", "k", ")", "$1">>
    [] k = "brace" -> <<"{", "$1", "}">>
    [] k = "brace2" -> <<"{", "$1", ";", "$2", "}">>
    [] k = "stop2" -> <<"stop", "(", ")", ";", "$1", ";", "$2">>
    [] k = "prog1" -> <<"$1">>
    [] k = "prog2" -> <<"$1", ";", "$2">>
    [] k = "prog3" -> <<"$1", ";", "$2", ";", "$3">>
    [] k = "doc1" -> <<"$1">>                        \* the chunks of a document
    [] k = "doc2" -> <<"$1", "```", "$2">>
    [] k = "doc3" -> <<"$1", "```", "$2", "```", "$3">>
Arity(k) == Cardinality({j \in 1..Len(Tmpl(k)) : Tmpl(k)[j] \in {"$1", "$2", "$3"}})
(* nodes inside of a node that are no children: from the first to the last of these elements *)
Inner(k) == CASE k \in {"A", "B"} -> {<<3, 6>>} [] k = "named" -> {<<3, 5>>} [] k = "fun" -> {<<3, 5>>}
              [] k = "dead" -> {<<4, 11>>, <<5, 8>>} [] k = "dead2" -> {<<4, 13>>, <<5, 8>>} [] k = "pipe" -> {<<3, 6>>} [] k = "lambda" -> {}
              [] k = "stop2" -> {<<1, 3>>}
              [] k = "elif" -> {<<5, 7>>, <<9, 15>>, <<13, 15>>, <<14, 14>>, <<3, 3>>}
              [] k = "else" -> {<<3, 3>>} [] k = "E" -> {<<3, 3>>} [] OTHER -> {}
RuleOf(k) == CASE k = "A" -> "any_is_na" [] k = "B" -> "any_duplicated" [] k = "E" -> "equals_na" [] k = "T" -> "true_false_symbol" [] k \in {"dead", "dead2", "stop2"} -> "unreachable_code" [] OTHER -> ""
Child(e) == CASE e = "$1" -> 1 [] e = "$2" -> 2 [] e = "$3" -> 3 [] OTHER -> 0

(* children that bind less tightly than where they stand are put in parentheses *)
Tight == {"x", "T", "A", "B", "call", "call2", "named", "callee", "paren", "sub", "sub2", "of", "dollar", "brace", "brace2"}
Place(k, e, t) == IF \/ (k \in {"E", "plus", "pipe", "callee", "of", "dollar", "else"} /\ e = "$1" /\ t[1] \notin Tight \cup (IF k = "pipe" THEN {k} ELSE {}))
                     \/ (k = "plus" /\ e = "$2" /\ t[1] \notin Tight) \/ (k = "minus" /\ t[1] \notin Tight)
                     \/ (k = "tilde" /\ t[1] = "assign")
                  THEN <<"paren", t>> ELSE t
Flow == {"if", "else", "elif", "for", "while", "repeat", "fun", "lambda", "dead", "dead2"}
RECURSIVE Flat(_, _)
(* the term t, its first token being number o *)
Flat(t, o) ==
  LET T == Tmpl(t[1])
      sub == TLCEval([j \in 1..Len(T) |-> IF Child(T[j]) = 0 THEN [toks |-> <<T[j]>>, nodes |-> {}, viols |-> {}, flow |-> {}] ELSE Flat(Place(t[1], T[j], t[1 + Child(T[j])]), 0)])
      RECURSIVE at(_)
      at(j) == IF j = 1 THEN o ELSE at(j - 1) + Len(sub[j - 1].toks)
      RECURSIVE toks(_)
      toks(j) == IF j = 0 THEN <<>> ELSE toks(j - 1) \o sub[j].toks
      last(j) == at(j) + Len(sub[j].toks) - 1
      own == {<<at(1), last(Len(T))>>}
      dead == t[1] \in {"dead", "dead2", "stop2"}
      kid == CHOOSE j \in 1..Len(T) : T[j] = "$1" \/ "$1" \notin {T[m] : m \in 1..Len(T)}
  IN [toks |-> toks(Len(T)),
      nodes |-> (IF t[1] \in {"prog1", "prog2", "prog3", "stop2", "doc1", "doc2", "doc3"} THEN {} ELSE own) \cup {<<at(p[1]), last(p[2])>> : p \in Inner(t[1])}
                \cup UNION {{<<n[1] + at(j), n[2] + at(j)>> : n \in sub[j].nodes} : j \in 1..Len(T)},
      flow |-> (IF t[1] \in Flow THEN own ELSE {}) \cup (IF t[1] = "elif" THEN {<<at(9), last(15)>>} ELSE {})
               \cup UNION {{<<n[1] + at(j), n[2] + at(j)>> : n \in sub[j].flow} : j \in 1..Len(T)},
      viols |-> (IF RuleOf(t[1]) = "" THEN {}
                 ELSE {[r |-> RuleOf(t[1]), lo |-> IF dead THEN at(kid) ELSE at(1), hi |-> IF dead THEN last(CHOOSE j \in 1..Len(T) : T[j] = (IF t[1] = "dead" THEN "$1" ELSE "$2")) ELSE last(Len(T))]})
                \cup UNION {{[r |-> v.r, lo |-> v.lo + at(j), hi |-> v.hi + at(j)] : v \in sub[j].viols} : j \in 1..Len(T)}]

VARIABLES prog, flat, cs
ivars == <<prog, flat, cs>>
Starts == {n[1] : n \in flat.nodes}
Reach(c) == LET his == {n[2] : n \in {m \in flat.nodes : m[1] = c.at}} IN CHOOSE h \in his : \A g \in his : g <= h
Covers(c, v) == c.at \in Starts /\ c.r = v.r /\ c.at <= v.lo /\ v.lo <= Reach(c)
Visible(C) == {v \in flat.viols : ~\E c \in C : Covers(c, v)}
Superfluous(C) == {c \in C : Visible(C \ {c}) = Visible(C)}
(* a comment for an expression within a condition, a loop or a function stands within it *)
Within(c, v) == v.r \in {"true_false_symbol", "unreachable_code"} \/ \A n \in flat.flow : (n[1] <= v.lo /\ v.hi <= n[2]) => n[1] < c.at
Modest(c) == \E v \in flat.viols : Covers(c, v) /\ Within(c, v)

IInit(t) == prog = t /\ flat = Flat(t, 1) /\ cs = {}
Insert == \E v \in Visible(cs), a \in Starts :
            LET c == [at |-> a, r |-> v.r] IN
            /\ Covers(c, v) /\ Within(c, v)
            /\ cs' = {d \in cs : ~\E w \in {c} : d.r = c.r /\ c.at <= d.at /\ Reach(d) <= Reach(c)} \cup {c}
            /\ UNCHANGED <<prog, flat>>
INext == Insert
Silent == Visible(cs) = {}
Acceptable(C) == /\ Visible(C) = {} /\ Superfluous(C) = {} /\ \A c \in C : c.at \in Starts

(* invariants *)
EveryComment == Superfluous(cs) = {}
Possible == Visible(cs) # {} => ENABLED Insert
Done == Silent => Acceptable(cs)
Modesty == \A c \in cs : Modest(c)
NoMore == Cardinality(cs) <= Cardinality(flat.viols)
===============================================================================
