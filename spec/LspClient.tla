------------------------------ MODULE LspClient ------------------------------
(***************************************************************************)
(* The server's handle for sending messages to the editor, shared by        *)
(* several threads: request ids, the table of outstanding requests, the     *)
(* one-shot notice.  One action per critical section.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Idle

VARIABLES ctr,      \* next request id
          pending,  \* id -> clock at registration (function with finite domain)
          chan,     \* messages sent to the editor, in order
          notified, \* the one-shot notice has been claimed
          clock,
          pc,       \* per thread: Idle or a record [op, ...]
          got       \* per thread: what the running operation computed so far
cvars == <<ctr, pending, chan, notified, clock, pc, got>>

NoRes == [ok |-> FALSE]

CInit == /\ ctr = 1 /\ pending = [i \in {} |-> 0] /\ chan = <<>> /\ notified = FALSE
         /\ clock = 0 /\ pc = [t \in Threads |-> Idle] /\ got = [t \in Threads |-> NoRes]

Remove(f, S) == [i \in DOMAIN f \ S |-> f[i]]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]

Call(t, op) == /\ pc[t] = Idle
               /\ pc' = [pc EXCEPT ![t] = op]
               /\ got' = [got EXCEPT ![t] = NoRes]
               /\ UNCHANGED <<ctr, pending, chan, notified, clock>>

Step(t, next) == pc' = [pc EXCEPT ![t] = [@ EXCEPT !.at = next]]

(* -- request: take an id; register it; send -- *)
ReqId(t) == /\ pc[t] # Idle /\ pc[t].op = "request" /\ pc[t].at = "begin"
            /\ got' = [got EXCEPT ![t] = [id |-> ctr]] /\ ctr' = ctr + 1
            /\ Step(t, "register") /\ UNCHANGED <<pending, chan, notified, clock>>
ReqRegister(t) == /\ pc[t] # Idle /\ pc[t].op = "request" /\ pc[t].at = "register"
                  /\ pending' = Put(pending, got[t].id, clock)
                  /\ Step(t, "send") /\ UNCHANGED <<ctr, chan, notified, clock, got>>
ReqSend(t) == /\ pc[t] # Idle /\ pc[t].op = "request" /\ pc[t].at = "send"
              /\ chan' = Append(chan, [kind |-> "request", id |-> got[t].id, tag |-> pc[t].tag])
              /\ Step(t, "done") /\ UNCHANGED <<ctr, pending, notified, clock, got>>

(* -- plain messages: notification, response, error response -- *)
PlainSend(t) == /\ pc[t] # Idle /\ pc[t].op \in {"notification", "response", "error"} /\ pc[t].at = "begin"
                /\ chan' = Append(chan, [kind |-> pc[t].op, id |-> pc[t].id, tag |-> pc[t].tag])
                /\ Step(t, "done") /\ UNCHANGED <<ctr, pending, notified, clock, got>>

(* -- the one-shot notice -- *)
OnceClaim(t) == /\ pc[t] # Idle /\ pc[t].op = "once" /\ pc[t].at = "begin"
                /\ got' = [got EXCEPT ![t] = [first |-> ~notified]] /\ notified' = TRUE
                /\ Step(t, IF notified THEN "done" ELSE "send")
                /\ UNCHANGED <<ctr, pending, chan, clock>>
OnceSend(t) == /\ pc[t] # Idle /\ pc[t].op = "once" /\ pc[t].at = "send"
               /\ chan' = Append(chan, [kind |-> "notice", id |-> 0, tag |-> pc[t].tag])
               /\ Step(t, "done") /\ UNCHANGED <<ctr, pending, notified, clock, got>>

(* -- an answer arrives; stale requests are dropped -- *)
Answer(t) == /\ pc[t] # Idle /\ pc[t].op = "answer" /\ pc[t].at = "begin"
             /\ got' = [got EXCEPT ![t] = [known |-> pc[t].id \in DOMAIN pending]]
             /\ pending' = Remove(pending, {pc[t].id})
             /\ Step(t, "done") /\ UNCHANGED <<ctr, chan, notified, clock>>
Cleanup(t) == /\ pc[t] # Idle /\ pc[t].op = "cleanup" /\ pc[t].at = "begin"
              /\ LET old == {i \in DOMAIN pending : clock - pending[i] > pc[t].id} IN
                 /\ pending' = Remove(pending, old)
                 /\ got' = [got EXCEPT ![t] = [dropped |-> Cardinality(old)]]
              /\ Step(t, "done") /\ UNCHANGED <<ctr, chan, notified, clock>>

Silent(t) == ReqId(t) \/ ReqRegister(t) \/ OnceClaim(t) \/ Answer(t) \/ Cleanup(t)
Sending(t) == ReqSend(t) \/ PlainSend(t) \/ OnceSend(t)

Return(t) == /\ pc[t] # Idle /\ pc[t].at = "done"
             /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<ctr, pending, chan, notified, clock, got>>

Advance(d) == clock' = clock + d /\ UNCHANGED <<ctr, pending, chan, notified, pc, got>>

(* ---- exhaustive configuration: every thread performs up to MaxOps operations ---- *)
CONSTANT MaxOps
VARIABLE left
OpOf(o, i, tag) == [op |-> o, id |-> i, tag |-> tag, at |-> "begin"]
MNext == \E t \in Threads :
   \/ /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
      /\ \/ Call(t, OpOf("request", 0, "m"))
         \/ Call(t, OpOf("notification", 0, "n"))
         \/ Call(t, OpOf("once", 0, "o"))
         \/ Call(t, OpOf("cleanup", 5, "c"))
         \/ \E i \in {chan[k].id : k \in {j \in 1..Len(chan) : chan[j].kind = "request"}} : Call(t, OpOf("answer", i, "a"))
   \/ left' = left /\ (Silent(t) \/ Sending(t) \/ Return(t))
   \/ left' = left /\ clock < 10 /\ Advance(10)
MInit == CInit /\ left = [t \in Threads |-> MaxOps]
MSpec == MInit /\ [][MNext]_<<cvars, left>>

Requests == {k \in 1..Len(chan) : chan[k].kind = "request"}
UniqueIds == \A j, k \in Requests : j # k => chan[j].id # chan[k].id
RegisteredBeforeSent == \A t \in Threads :
   (pc[t] # Idle /\ pc[t].op = "request" /\ pc[t].at = "send") =>
       (got[t].id \in DOMAIN pending \/ clock > 5)
OneNotice == Cardinality({k \in 1..Len(chan) : chan[k].kind = "notice"}) <= 1
PendingAreIssued == \A i \in DOMAIN pending : i < ctr
=============================================================================
