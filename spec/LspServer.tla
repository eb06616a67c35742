------------------------------ MODULE LspServer ------------------------------
(***************************************************************************)
(* A session of the language server as the editor sees it: the handshake,   *)
(* requests and notifications handled in order by the main loop, lint and   *)
(* code-action jobs carried out in the background in any order, shutdown    *)
(* and exit.                                                                *)
(*                                                                          *)
(* A message of the editor is a record with at least the fields             *)
(*   k    what it is (see Handle)          id   id of a request             *)
(*   doc  document                         ver  version of the text         *)
(*   n    number of violations of the text, -1 if it cannot be linted       *)
(* A message to the editor is an answer [k |-> "ans", id, ok, code, n] or   *)
(* a list of diagnostics [k |-> "pub", doc, ver, n] (ver = -1: none given). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Docs

VARIABLES phase,   \* "start" | "wait" | "run" | "down" | "ended"
          clean,   \* how the session ended
          docs,    \* Docs -> [open, ver, n]
          jobs,    \* background jobs not finished yet
          tick,    \* Docs -> number of lists requested or cleared so far
          last,    \* Docs -> number of the list the editor shows
          out      \* messages to the editor, in order
svars == <<phase, clean, docs, jobs, tick, last, out>>

SInit == /\ phase = "start" /\ clean = TRUE /\ jobs = {} /\ out = <<>>
         /\ docs = [d \in Docs |-> [open |-> FALSE, ver |-> 0, n |-> 0]]
         /\ tick = [d \in Docs |-> 0] /\ last = [d \in Docs |-> 0]

Requests == {"init", "init-bad", "unknown", "action", "action-bad", "shutdown"}
IsRequest(m) == m.k \in Requests
Diags(n) == IF n < 0 THEN 0 ELSE n    \* what cannot be linted has no diagnostics

Good(m, n) == [k |-> "ans", id |-> m.id, ok |-> TRUE, code |-> "none", n |-> n]
Fail(m, c) == [k |-> "ans", id |-> m.id, ok |-> FALSE, code |-> c, n |-> 0]
Pub(d, v, n) == [k |-> "pub", doc |-> d, ver |-> v, n |-> n]

Emit(m) == out' = Append(out, m)
Quiet == UNCHANGED out
Refusals == {"error", "nomethod"}

End(ok) == /\ phase' = "ended" /\ clean' = ok
           /\ Quiet /\ UNCHANGED <<docs, jobs, tick, last>>
Ignore == Quiet /\ UNCHANGED <<phase, clean, docs, jobs, tick, last>>
Answer(m) == Emit(m) /\ UNCHANGED <<phase, clean, docs, jobs, tick, last>>

(* -- before the handshake is complete -- *)
HandleStart(m) ==
  CASE m.k = "init"     -> Emit(Good(m, 0)) /\ phase' = "wait" /\ UNCHANGED <<clean, docs, jobs, tick, last>>
    [] m.k = "exit"     -> End(FALSE)
    [] IsRequest(m) /\ m.k # "init" -> \E c \in Refusals : Answer(Fail(m, c))
    [] OTHER            -> Ignore
HandleWait(m) ==
  CASE m.k = "initialized" -> phase' = "run" /\ Quiet /\ UNCHANGED <<clean, docs, jobs, tick, last>>
    [] OTHER               -> End(FALSE)

(* -- the session proper -- *)
SetDoc(d, v) == docs' = [docs EXCEPT ![d] = v]
HandleRun(m) ==
  CASE m.k \in {"unknown", "init", "init-bad"} -> Answer(Fail(m, "nomethod"))
    [] m.k = "action-bad" -> Answer(Fail(m, "error"))
    [] m.k = "action" /\ ~docs[m.doc].open -> Answer(Fail(m, "error"))
    [] m.k = "action" /\ docs[m.doc].open ->
         /\ jobs' = jobs \cup {[kind |-> "action", doc |-> m.doc, t |-> 0, ver |-> docs[m.doc].ver, n |-> docs[m.doc].n, id |-> m.id]}
         /\ Quiet /\ UNCHANGED <<phase, clean, docs, tick, last>>
    [] m.k = "shutdown" -> Emit(Good(m, 0)) /\ phase' = "down" /\ UNCHANGED <<clean, docs, jobs, tick, last>>
    [] m.k = "exit" -> End(FALSE)
    [] m.k = "open" -> SetDoc(m.doc, [open |-> TRUE, ver |-> m.ver, n |-> m.n]) /\ Quiet /\ UNCHANGED <<phase, clean, jobs, tick, last>>
    [] m.k = "change" /\ docs[m.doc].open ->
         SetDoc(m.doc, [open |-> TRUE, ver |-> m.ver, n |-> m.n]) /\ Quiet /\ UNCHANGED <<phase, clean, jobs, tick, last>>
    [] m.k = "save" /\ docs[m.doc].open ->
         /\ tick' = [tick EXCEPT ![m.doc] = @ + 1]
         /\ jobs' = jobs \cup {[kind |-> "lint", doc |-> m.doc, t |-> tick'[m.doc], ver |-> docs[m.doc].ver, n |-> docs[m.doc].n, id |-> 0]}
         /\ Quiet /\ UNCHANGED <<phase, clean, docs, last>>
    [] m.k = "close" /\ docs[m.doc].open ->
         /\ SetDoc(m.doc, [open |-> FALSE, ver |-> 0, n |-> 0])
         /\ tick' = [tick EXCEPT ![m.doc] = @ + 1]
         /\ last' = [last EXCEPT ![m.doc] = tick'[m.doc]]
         /\ Emit(Pub(m.doc, -1, 0)) /\ UNCHANGED <<phase, clean, jobs>>
    \* nothing to clear: clearing it all the same does no harm
    [] m.k = "close" /\ ~docs[m.doc].open -> Ignore \/ Answer([k |-> "pub", doc |-> m.doc, ver |-> -1, n |-> 0])
    [] OTHER -> Ignore

(* -- between shutdown and exit -- *)
HandleDown(m) ==
  CASE IsRequest(m)    -> \E c \in Refusals : Answer(Fail(m, c))
    [] m.k = "exit"    -> End(TRUE)
    [] OTHER           -> Ignore

Handle(m) ==
  CASE phase = "start" -> HandleStart(m)
    [] phase = "wait"  -> HandleWait(m)
    [] phase = "run"   -> HandleRun(m)
    [] phase = "down"  -> HandleDown(m)
    [] OTHER           -> FALSE

(* -- background work; it is still carried out when the session ends properly -- *)
FinishAction(j) ==
  /\ j.kind = "action"
  /\ jobs' = jobs \ {j}
  /\ IF j.n < 0 THEN \E a \in {[k |-> "ans", id |-> j.id, ok |-> TRUE, code |-> "none", n |-> 0], [k |-> "ans", id |-> j.id, ok |-> FALSE, code |-> "error", n |-> 0]} : Emit(a)
     ELSE Emit([k |-> "ans", id |-> j.id, ok |-> TRUE, code |-> "none", n |-> j.n])
  /\ UNCHANGED <<phase, clean, docs, tick, last>>
Publish(j) ==
  /\ j.kind = "lint" /\ j.t > last[j.doc]
  /\ jobs' = jobs \ {j}
  /\ last' = [last EXCEPT ![j.doc] = j.t]
  /\ Emit(Pub(j.doc, j.ver, Diags(j.n)))
  /\ UNCHANGED <<phase, clean, docs, tick>>
\* a list that has been superseded may be dropped
Drop(j) ==
  /\ j.kind = "lint" /\ j.t < tick[j.doc]
  /\ jobs' = jobs \ {j}
  /\ Quiet /\ UNCHANGED <<phase, clean, docs, tick, last>>
\* the editor wants no answer any more
Abandon == /\ phase = "ended" /\ ~clean /\ jobs # {} /\ jobs' = {}
           /\ Quiet /\ UNCHANGED <<phase, clean, docs, tick, last>>
Background == \/ \E j \in jobs : FinishAction(j) \/ Publish(j) \/ Drop(j)
              \/ Abandon
=============================================================================
