------------------------------- MODULE Status -------------------------------
(***************************************************************************)
(* A run of the command line: what it finds decides how it ends.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Outcomes == {"Success", "Failure", "Error"}
Code(o) == CASE o = "Success" -> 0 [] o = "Failure" -> 1 [] o = "Error" -> 255
DistinctCodes == \A a, b \in Outcomes : a # b => Code(a) # Code(b)
Levels == <<"error", "warn", "info", "debug", "trace">>
Rank(x) == CHOOSE i \in 1..5 : Levels[i] = x
Known(s) == \E i \in 1..5 : Levels[i] = s
ParseLevel(s) == IF Known(s) THEN s ELSE "-"
Visible(level) == {Levels[i] : i \in 1..Rank(level)}

Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l \in 1..Len(Rec)
TNext == FALSE /\ l' = l
TSpec == TInit /\ [][TNext]_l
R == Rec[l]
Ok == CASE R.k = "exit" -> R.code = Code(R.s)
        [] R.k = "level" -> R.r = ParseLevel(R.s)
        [] R.k = "default" -> R.s = "warn" /\ R.ordered
        [] R.k = "shown" -> {R.ev[i] : i \in 1..Len(R.ev)} = Visible(R.s)
        [] OTHER -> FALSE
Accepted == Ok \/ PrintT(ToJson([rejected |-> l]))
=============================================================================
