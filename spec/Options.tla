-------------------------------- MODULE Options --------------------------------
(***************************************************************************)
(* The options of single rules.  Four rules have a list of functions with a    *)
(* default; the configuration can replace it (base) or add to it (ext), not     *)
(* both.  The assignment rule has an operator, which the command line overrides. *)
(*                                                                         *)
(* The machine resolves rule after rule and stops at the first conflict, then    *)
(* looks at each call of the file.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES base, ext, oper, cli, calls, todo, list, op, seen, phase
ovars == <<base, ext, oper, cli, calls, todo, list, op, seen, phase>>
(* base, ext: [rule -> [set, names]]; oper, cli: "", "<-", "=" or something else;   *)
(* calls: set of [p, f]: prefix ("", "pkg::", "pkg:::", "x$") and function           *)
Rules == {"duplicated_arguments", "implicit_assignment", "undesirable_function", "unreachable_code"}
Default(r) == CASE r = "duplicated_arguments" -> {"c", "mutate", "summarize", "transmute"}
                [] r = "implicit_assignment" -> {"expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"}
                [] r = "undesirable_function" -> {"browser"}
                [] r = "unreachable_code" -> {"stop", ".Defunct", "abort", "cli_abort", "q", "quit"}
(* what a list does to a call in it: it excuses the call, or it gives rise to a report *)
Excuses == {"duplicated_arguments", "implicit_assignment"}
(* duplicated_arguments never reports the functions of cli that take glue strings *)
Always(r) == IF r = "duplicated_arguments" THEN {"cli_abort"} ELSE {}
(* calls of a rule that are judged: the documentation leaves open whether c of x$c is the c of a list of functions  *)
Judged(r, c) == ~(r = "duplicated_arguments" /\ c.p = "x$")
Unset == [set |-> FALSE, names |-> {}]

OInit(b, e, o, c, cs) == base = b /\ ext = e /\ oper = o /\ cli = c /\ calls = cs /\ todo = Rules /\ list = <<>> /\ op = "" /\ seen = {} /\ phase = "resolve"
Const == UNCHANGED <<base, ext, oper, cli, calls>>
Resolve == /\ phase = "resolve" /\ todo # {}
           /\ \E r \in todo :
                /\ todo' = todo \ {r}
                /\ IF base[r].set /\ ext[r].set THEN phase' = "conflict" /\ list' = list
                   ELSE phase' = phase /\ list' = (r :> IF base[r].set THEN base[r].names ELSE Default(r) \cup ext[r].names) @@ list
           /\ Const /\ UNCHANGED <<op, seen>>
Operator == /\ phase = "resolve" /\ todo = {}
            /\ IF oper \notin {"", "<-", "="} \/ cli \notin {"", "<-", "="} THEN phase' = "invalid" /\ op' = op
               ELSE phase' = "look" /\ op' = (IF cli # "" THEN cli ELSE IF oper # "" THEN oper ELSE "<-")
            /\ todo' = calls /\ Const /\ UNCHANGED <<list, seen>>
Look == /\ phase = "look" /\ todo # {} /\ LET c == CHOOSE c \in todo : TRUE IN
           /\ todo' = todo \ {c}
           /\ seen' = seen \cup {<<r, c.p, c.f>> : r \in {r \in Rules : Judged(r, c) /\ LET inlist == c.p # "x$" /\ c.f \in list[r] \cup Always(r) IN IF r \in Excuses THEN ~inlist ELSE inlist}}
        /\ Const /\ UNCHANGED <<list, op, phase>>
Finish == phase = "look" /\ todo = {} /\ phase' = "end" /\ Const /\ UNCHANGED <<todo, list, op, seen>>
ONext == Resolve \/ Operator \/ Look \/ Finish
Ended == phase \in {"end", "conflict", "invalid"}

(* the property *)
Conflicts == {r \in Rules : base[r].set /\ ext[r].set}
Invalid == {oper, cli} \ {"", "<-", "="} # {}
Fails == Conflicts # {} \/ Invalid
Member(r, f) == \/ base[r].set /\ f \in base[r].names
                \/ ~base[r].set /\ (f \in Default(r) \/ (ext[r].set /\ f \in ext[r].names))
Reported(r, c) == Judged(r, c) /\ ((c.p \in {"", "pkg::", "pkg:::"}) /\ (Member(r, c.f) \/ c.f \in Always(r))) # (r \in Excuses)
Reports == {<<x[1], x[2].p, x[2].f>> : x \in {x \in Rules \X calls : Reported(x[1], x[2])}}
(* the assignment operators that are reported *)
Assigns == IF cli # "" THEN {"<-", "="} \ {cli} ELSE IF oper # "" THEN {"<-", "="} \ {oper} ELSE {"="}
Documented == /\ phase = "end" => ~Fails /\ seen = Reports /\ {"<-", "="} \ {op} = Assigns
              /\ phase = "conflict" => Conflicts # {}
              /\ phase = "invalid" => Invalid
===============================================================================
