------------------------------- MODULE FixMode -------------------------------
(***************************************************************************)
(* Which violations a run rewrites and which it reports.  A file is a          *)
(* sequence of statements; each violates a rule (or none), may be one the     *)
(* tool declines to rewrite, and may be covered by a suppression comment.      *)
(* A run is given the options, the active rules and the lists of rules that    *)
(* may and may not be fixed (<<>>: not given).                                 *)
(***************************************************************************)
EXTENDS Rules
VARIABLES opt, file, text, phase, shown
fvars == <<opt, file, text, phase, shown>>
Stands(tok) == IF tok = "ALL" THEN Names ELSE IF tok \in Categories THEN ByCategory(tok) ELSE {tok}
Known(tok) == tok = "ALL" \/ tok \in Categories \/ tok \in Names
Expand(l) == UNION {Stands(l[i]) : i \in 1..Len(l)}
AllKnown == /\ \A i \in 1..Len(opt.unfixable) : Known(opt.unfixable[i])
            /\ IF opt.fixable = <<>> THEN TRUE ELSE \A i \in 1..Len(opt.fixable[1]) : Known(opt.fixable[1][i])

Fixing == opt.fix \/ opt.unsafe \/ opt.only
Violates(i) == file.s[i].rule # "" /\ file.s[i].rule \in opt.active /\ ~file.s[i].hidden
Allowed(r) == /\ r \in ByFix("safe") \/ (opt.unsafe /\ r \in ByFix("unsafe"))
              /\ IF opt.fixable = <<>> THEN TRUE ELSE r \in Expand(opt.fixable[1])
              /\ r \notin Expand(opt.unfixable)
FInit(o, f) == opt = o /\ file = f /\ text = [i \in 1..Len(f.s) |-> "old"] /\ phase = "start" /\ shown = {}
Refuse == phase = "start" /\ ~AllKnown /\ phase' = "refused" /\ UNCHANGED <<opt, file, text, shown>>
Start == phase = "start" /\ AllKnown /\ phase' = (IF Fixing /\ file.kind = "R" THEN "fix" ELSE "report") /\ UNCHANGED <<opt, file, text, shown>>
Rewritable(i) == text[i] = "old" /\ Violates(i) /\ Allowed(file.s[i].rule) /\ ~file.s[i].declines
(* statements are rewritten one by one; the order makes no difference, so the first goes first *)
Rewrite == /\ phase = "fix" /\ \E i \in 1..Len(file.s) : /\ Rewritable(i) /\ \A j \in 1..(i - 1) : ~Rewritable(j)
                                                        /\ text' = [text EXCEPT ![i] = "new"]
           /\ UNCHANGED <<opt, file, phase, shown>>
Done == phase = "fix" /\ (\A i \in 1..Len(file.s) : ~Rewritable(i)) /\ phase' = "report" /\ UNCHANGED <<opt, file, text, shown>>
Tell == /\ phase = "report" /\ phase' = "end"
        /\ shown' = IF opt.only THEN {} ELSE {i \in 1..Len(file.s) : Violates(i) /\ text[i] = "old"}
        /\ UNCHANGED <<opt, file, text>>
FNext == Refuse \/ Start \/ Rewrite \/ Done \/ Tell
Ended == phase \in {"end", "refused"}

OnlyAllowed == \A i \in 1..Len(file.s) : text[i] = "new" => Violates(i) /\ Fixing /\ file.kind = "R" /\ Allowed(file.s[i].rule)
NoSilentLoss == (phase = "end" /\ ~opt.only) => \A i \in 1..Len(file.s) : Violates(i) => (i \in shown) # (text[i] = "new")
NeverUnasked == (~Fixing \/ phase = "refused") => \A i \in 1..Len(file.s) : text[i] = "old"
UnfixableWins == \A i \in 1..Len(file.s) : text[i] = "new" => file.s[i].rule \notin Expand(opt.unfixable)
AllThatCan == phase = "end" => \A i \in 1..Len(file.s) : ~(Fixing /\ file.kind = "R" /\ Rewritable(i))
=============================================================================
