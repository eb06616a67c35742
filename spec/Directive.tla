------------------------------ MODULE Directive ------------------------------
(***************************************************************************)
(* The suppression comment language.  A comment is a sequence of tokens:    *)
(*   hash # | pipe | sp tab wide cr (blanks) | kw jarl-ignore               *)
(*   file/start/end/chunk: the keyword suffixes "-file" ...                 *)
(*   r1 r2: two existing rules | bad: a name no rule has                    *)
(*   colon : | dash - | word: other text                                    *)
(* Recognition is the automaton of a left-to-right reader (Read), checked   *)
(* against the declarative grammar of the documentation (DocForm).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Blanks == {"sp", "tab", "wide", "cr"}
RuleToks == {"r1", "r2"}
Suffixes == {"file", "start", "end", "chunk"}

RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in Blanks THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Blanks THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
From(s, i) == SubSeq(s, i, Len(s))
At(s, i) == IF i <= Len(s) THEN s[i] ELSE "eof"
ColonAt(s) == LET C == {i \in 1..Len(s) : s[i] = "colon"} IN
              IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : i <= j

Res(c, k, r) == [c |-> c, k |-> k, r |-> r]
None == Res("none", "", "")
Blanket == Res("blanket", "", "")

(* "<rule>: <reason>" (the reason is optional for an end comment) *)
NameOf(a)   == Trim(IF ColonAt(a) = 0 THEN a ELSE SubSeq(a, 1, ColonAt(a) - 1))
ReasonOf(a) == IF ColonAt(a) = 0 THEN <<>> ELSE Trim(From(a, ColonAt(a) + 1))
Arg(kind, a, norule) ==
  LET n == NameOf(a) IN
  CASE n = <<>> -> norule
    [] n # <<>> /\ ~(Len(n) = 1 /\ n[1] \in RuleToks) -> {Res("misnamed", "", "")}
    [] Len(n) = 1 /\ n[1] \in RuleToks /\ kind # "end" /\ ReasonOf(a) = <<>> -> {Res("unexplained", "", "")}
    [] OTHER -> {Res("valid", kind, n[1])}

(* the reader: prefix, keyword, kind, argument; the result is the set of
   classifications the documentation allows (one, except for file, start and
   end comments that name no rule: reported as blanket or not at all) *)
Comment(s0) ==
  LET s == Trim(s0)
      piped == At(s, 2) = "pipe" /\ At(s, 3) = "sp"
      body == IF piped THEN From(s, 4) ELSE IF At(s, 2) = "sp" THEN From(s, 3) ELSE From(s, 2)
      k1 == At(body, 2)
  IN IF At(s, 1) # "hash" \/ At(body, 1) # "kw" THEN {None}
     ELSE CASE k1 \in {"eof", "colon"} -> IF piped THEN {None} ELSE {Blanket}
            [] k1 = "sp" -> IF piped THEN {None} ELSE Arg("next", From(body, 3), {Blanket})
            [] k1 \in {"file", "start", "end"} ->
                 IF piped THEN {None}
                 ELSE IF At(body, 3) = "sp" THEN Arg(k1, From(body, 4), {None, Blanket})
                 ELSE IF At(body, 3) \in {"eof", "colon"} THEN {None, Blanket} ELSE {None}
            [] k1 = "chunk" /\ At(body, 3) \in {"eof", "colon"} -> {Blanket}
            [] k1 = "chunk" /\ At(body, 3) = "sp" -> Arg("chunk", From(body, 4), {Blanket})
            [] OTHER -> {None}

Header(s) == IF Trim(s) = <<"hash", "pipe", "sp", "kw", "chunk", "colon">>
             THEN {Res("header", "", "")} ELSE {None}

Item(s0) ==
  LET s == Trim(s0)
      b == LTrim(From(s, 3))
      a == LTrim(From(b, 2))
  IN IF At(s, 1) # "hash" \/ At(s, 2) # "pipe" \/ At(b, 1) # "dash" THEN {None}
     ELSE IF At(b, 2) # "eof" /\ At(b, 2) \notin Blanks THEN {None}
     ELSE IF a = <<>> THEN {None}
     ELSE Arg("chunk", a, {None})

(* ---- the documented forms, declaratively ---- *)
IsBlank(s) == \A i \in 1..Len(s) : s[i] \in Blanks
Kw(k) == IF k = "next" THEN <<"kw">> ELSE <<"kw", k>>
Cut(s, i, j) == SubSeq(s, i, IF j > Len(s) THEN Len(s) ELSE j)
(* s = blanks # [space] keyword space blanks rule blanks [: reason] *)
DocForm(s, k, r) ==
  \E p \in 0..Len(s) :
    /\ IsBlank(Cut(s, 1, p))
    /\ \E pre \in {<<"hash">>, <<"hash", "sp">>} \cup (IF k = "chunk" THEN {<<"hash", "pipe", "sp">>} ELSE {}) :
         LET h == pre \o Kw(k) \o <<"sp">> IN
         /\ Cut(s, p + 1, p + Len(h)) = h
         /\ LET rest == From(s, p + Len(h) + 1) IN
            \E i \in 1..Len(rest) :
              /\ rest[i] = r /\ IsBlank(Cut(rest, 1, i - 1))
              /\ \E j \in i..Len(rest) :
                   /\ IsBlank(Cut(rest, i + 1, j))
                   /\ \/ (k = "end" /\ (j = Len(rest) \/ At(rest, j + 1) = "colon"))
                      \/ (k # "end" /\ At(rest, j + 1) = "colon" /\ ~IsBlank(From(rest, j + 2)))
=============================================================================
