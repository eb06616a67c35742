----------------------------- MODULE DirectiveMC -----------------------------
(* Enumerates comments: every token sequence up to MaxFree, and every
   documented-looking comment (prefix, keyword, tail up to MaxTail). *)
EXTENDS Directive, Json
CONSTANTS Free, MaxFree, Tail0, MaxTail
VARIABLES s, phase
Prefixes == {<<>>, <<"hash">>, <<"hash", "sp">>, <<"hash", "pipe", "sp">>, <<"hash", "pipe">>, <<"hash", "tab">>, <<"hash", "sp", "sp">>,
             <<"sp", "hash", "sp">>, <<"hash", "hash", "sp">>, <<"hash", "pipe", "sp", "sp">>, <<"word", "hash", "sp">>, <<"pipe", "sp">>}
Keys == {<<"kw">>, <<"kw", "file">>, <<"kw", "start">>, <<"kw", "end">>, <<"kw", "chunk">>, <<"kw", "dash">>, <<"kw", "word">>, <<"dash">>,
         <<"kw", "file", "start">>, <<"word", "kw">>, <<"kw", "chunk", "end">>, <<"kw", "kw">>}
Init == \/ s = <<>> /\ phase = "free"
        \/ \E p \in Prefixes, k \in Keys : s = p \o k /\ phase = "tail" /\ TRUE
Base(x) == IF phase = "free" THEN MaxFree ELSE MaxTail
VARIABLE n
MInit == Init /\ n = 0
MNext == /\ n < Base(0)
         /\ n' = n + 1 /\ phase' = phase
         /\ \E t \in (IF phase = "free" THEN Free ELSE Tail0) : s' = Append(s, t)
MSpec == MInit /\ [][MNext]_<<s, phase, n>>

(* the reader agrees with the documented grammar *)
Kinds == {"next", "file", "start", "end", "chunk"}
ValidIffDocumented ==
  \A k \in Kinds, r \in RuleToks : (Comment(s) = {Res("valid", k, r)}) <=> DocForm(s, k, r)
PipeOnlyForChunks ==
  (At(Trim(s), 2) = "pipe") => \A x \in Comment(s) : x.c = "valid" => x.k = "chunk"
OneClass == Cardinality(Comment(s)) = 1 \/ Comment(s) = {None, Blanket}
HeaderIsNoItem == ~(Header(s) # {None} /\ Item(s) # {None})
ItemsAreNoDirectives == Item(s) # {None} => Comment(s) = {None}
Emit == PrintT(ToJson([t |-> s, c |-> Comment(s), i |-> Item(s), h |-> Header(s)]))
=============================================================================
