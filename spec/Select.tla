------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Which rules are active.  A request holds the selections of the command    *)
(* line and of the configuration file and what is known about the project's  *)
(* R version.  It is worked off one list after the other: every name is       *)
(* looked up (a list with an unknown name ends in an error), the first         *)
(* selection given becomes the base, additions join it, ignored rules leave    *)
(* it, and so do rules that need a newer R.                                    *)
(*                                                                             *)
(* A list is <<>> when it is not given and <<names>> when it is; a version is *)
(* <<major, minor, patch>>.                                                   *)
(***************************************************************************)
EXTENDS Rules
VARIABLES req, step, active, failed
svars == <<req, step, active, failed>>
Slots == <<"csel", "cext", "cign", "fsel", "fext", "fign">>

Known(tok) == tok = "ALL" \/ tok \in Categories \/ tok \in Names
Stands(tok) == IF tok = "ALL" THEN Names ELSE IF tok \in Categories THEN ByCategory(tok) ELSE {tok}
Given(l) == l # <<>>
Expand(l) == UNION {Stands(l[1][i]) : i \in 1..Len(l[1])}
(* the command line has priority over the file *)
First(a, b) == IF Given(a) THEN a ELSE b

(* versions *)
Lower(v, w) == \/ v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2]) \/ (v[1] = w[1] /\ v[2] = w[2] /\ v[3] <= w[3])
Highest(vs) == CHOOSE v \in vs : \A w \in vs : Lower(w, v)
(* the command line's version, else the highest bound of the project's DESCRIPTION *)
Version(r) == IF r.cver # <<>> THEN r.cver ELSE IF r.desc # {} THEN Highest(r.desc) ELSE <<>>
Available(n, v) == Row(n).min = <<>> \/ (v # <<>> /\ Lower(Row(n).min, v))

SInit(r) == req = r /\ step = 1 /\ active = {} /\ failed = FALSE
Names1(s) == req[s]
CheckNames == /\ step <= 6 /\ ~failed
              /\ failed' = (Given(Names1(Slots[step])) /\ \E i \in 1..Len(Names1(Slots[step])[1]) : ~Known(Names1(Slots[step])[1][i]))
              /\ step' = IF failed' THEN 11 ELSE step + 1
              /\ UNCHANGED <<req, active>>
Base == /\ step = 7 /\ step' = 8
        /\ active' = (LET b == First(req.csel, req.fsel) IN IF Given(b) THEN Expand(b) ELSE ByDefault(TRUE))
        /\ UNCHANGED <<req, failed>>
Extend == /\ step = 8 /\ step' = 9
          /\ active' = (LET x == First(req.cext, req.fext) IN IF Given(x) THEN active \cup Expand(x) ELSE active)
          /\ UNCHANGED <<req, failed>>
Gone == (IF Given(req.cign) THEN Expand(req.cign) ELSE {}) \cup (IF Given(req.fign) THEN Expand(req.fign) ELSE {})
Ignore == /\ step = 9 /\ step' = 10
          /\ active' = active \ Gone
          /\ UNCHANGED <<req, failed>>
Restrict == /\ step = 10 /\ step' = 11
            /\ active' = {n \in active : Available(n, Version(req))}
            /\ UNCHANGED <<req, failed>>
SNext == CheckNames \/ Base \/ Extend \/ Ignore \/ Restrict
Finished == step = 11

(* ---- the algebra, said the other way round ---- *)
AllKnown == \A k \in 1..6 : Given(req[Slots[k]]) => \A i \in 1..Len(req[Slots[k]][1]) : Known(req[Slots[k]][1][i])
ErrorsExactly == Finished => (failed = ~AllKnown)
Wanted(n) == \/ LET b == First(req.csel, req.fsel) IN IF Given(b) THEN n \in Expand(b) ELSE Row(n).enabled
             \/ LET x == First(req.cext, req.fext) IN Given(x) /\ n \in Expand(x)
MemberWise == (Finished /\ ~failed) =>
  \A n \in Names : (n \in active) = (Wanted(n) /\ n \notin Gone /\ Available(n, Version(req)))
IgnoringWins == (Finished /\ ~failed) => active \cap Gone = {}
VersionGate == (Finished /\ ~failed /\ Version(req) = <<>>) => \A n \in active : Row(n).min = <<>>
NothingUnknown == active \subseteq Names
=============================================================================
