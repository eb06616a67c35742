---------------------------- MODULE DescriptionMC ----------------------------
EXTENDS Description, Json
CONSTANTS MaxTokens, MaxLines
VARIABLES doc, n, phase
Lines == {<<"Depends">>, <<"Depends", "sp", "R", "sp", "lp", "ge", "sp", "v1", "rp">>, <<"Depends", "R", "lp", "ge", "v2", "rp", "comma">>,
          <<"Depends", "sp", "pkg", "comma", "sp", "R", "comma">>, <<"Depends", "sp", "Rx", "sp", "lp", "ge", "sp", "v1", "rp", "comma">>,
          <<"Imports", "sp", "R", "sp", "lp", "ge", "sp", "v1", "rp">>, <<"Imports">>,
          <<"in", "R", "sp", "lp", "ge", "sp", "v1", "rp">>, <<"in", "lp", "eq", "sp", "v2", "rp", "comma">>, <<"in", "pkg", "comma">>,
          <<"in", "R", "sp", "lp", "le", "sp", "v1", "rp", "comma">>, <<"in">>, <<"in", "ge", "sp", "v1", "rp">>, <<"junk">>, <<>>,
          <<"in", "Imports", "sp", "pkg", "comma">>, <<"in", "Depends", "sp", "R", "sp", "lp", "ge", "sp", "v2", "rp", "comma">>}
Toks == {"R", "Rx", "sp", "lp", "rp", "ge", "le", "v1", "comma"}
Flat(d) == d
Init == DInit /\ doc = <<>> /\ n = 0 /\ phase \in {"lines", "tokens"}
(* whole lines in any order *)
AddLine == /\ phase = "lines" /\ n < MaxLines /\ n' = n + 1 /\ phase' = phase
           /\ \E ln \in Lines : Line(ln) /\ doc' = doc \o ln \o <<"nl">>
(* one Depends field with any content *)
AddTok == /\ phase = "tokens" /\ n < MaxTokens /\ n' = n + 1 /\ phase' = phase
          /\ \E t \in Toks : /\ doc' = (IF doc = <<>> THEN <<"Depends">> ELSE doc) \o <<t>>
                             /\ key' = "Depends" /\ cur' = Append(cur, t) /\ dep' = dep
Next == AddLine \/ AddTok
Spec == Init /\ [][Next]_<<dvars, doc, n, phase>>

(* only packages called R, with a lower bound, contribute *)
OnlyR == LET v == Versions(Final) IN
   (v.v # <<>>) => \E i \in 1..Len(Final) : Final[i] = "R"
(* other fields never contribute *)
OthersIgnored == (key # "Depends" /\ dep = <<>>) => Versions(Final).v = <<>>
Emit == LET v == Versions(Final) IN
        PrintT(ToJson([t |-> doc, r |-> v.v, loose |-> ~v.ok]))
=============================================================================
