------------------------------ MODULE DocSync ------------------------------
(***************************************************************************)
(* The editor (client) and the language server each hold a copy of every   *)
(* open document.  The client edits its buffer by character indices and     *)
(* describes each edit to the server as a batch of ranges in the negotiated *)
(* position encoding, sent over a FIFO channel.  The server decodes the     *)
(* positions against ITS copy, change by change.                            *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANTS Uris, Chars, NewTexts, Encs, MaxInit, MaxLen, MaxBatch, MaxSteps, Closed, BadLines

VARIABLES enc, ctext, cver, chan, stext, sver, steps

vars == <<enc, ctext, cver, chan, stext, sver, steps>>

TextsUpTo(n) == UNION {[1..k -> Chars] : k \in 0..n}

(* ---- the server's application of one notification (operator shared with the
        trace specification and with the vector generator) ---- *)
Replace(t, a, b, new) == Prefix(t, a) \o new \o Suffix(t, b)

(* a change: [full, s, e, text] ; result: set of possible texts, {} = refused *)
ApplyOne(t, c, en) ==
  IF c.full THEN {c.text}
  ELSE LET A == IdxOf(t, c.s, en)
           B == IdxOf(t, c.e, en)
       IN UNION {{Replace(t, a, b, c.text) : b \in {x \in B : a <= x}} : a \in A}

RECURSIVE ApplyAll(_, _, _)
ApplyAll(T, cs, en) ==            \* T: set of possible texts
  IF cs = <<>> \/ T = {} THEN T
  ELSE ApplyAll(UNION {ApplyOne(t, Head(cs), en) : t \in T}, Tail(cs), en)

ApplyBatch(t, cs, en) == ApplyAll({t}, cs, en)

(* ---- the client's edits ---- *)
ClientEdits(t, en) ==
  UNION { {[full |-> FALSE, s |-> PosOf(t, a, en), e |-> PosOf(t, b, en), text |-> n,
            res |-> Replace(t, a, b, n)] : b \in a..Len(t), n \in NewTexts} : a \in 0..Len(t) }
  \cup {[full |-> TRUE, s |-> [line |-> 0, ch |-> 0], e |-> [line |-> 0, ch |-> 0], text |-> n, res |-> n]
          : n \in NewTexts}

(* batches: sequences of edits, each relative to the text left by the previous *)
RECURSIVE Batches(_, _, _)
Batches(t, en, n) ==
  IF n = 0 THEN {}
  ELSE LET E == ClientEdits(t, en) IN
       {<<x>> : x \in E}
       \cup UNION {{<<x>> \o y : y \in Batches(x.res, en, n - 1)} : x \in E}

Strip(c) == [full |-> c.full, s |-> c.s, e |-> c.e, text |-> c.text]

(* messages a broken client (or a race) can send: they must be refused *)
BadChanges(t, en) ==
  LET past == NumLines(t)
      mid == {p \in [line : 0..(NumLines(t) - 1), ch : 0..6] : IdxOf(t, p, en) = {}}
      good == {PosOf(t, k, en) : k \in 0..Len(t)}
      badpos == mid \cup {[line |-> past + d, ch |-> 0] : d \in BadLines}
  IN {[full |-> FALSE, s |-> p, e |-> q, text |-> <<"b">>] : p \in badpos, q \in good}
     \cup {[full |-> FALSE, s |-> q, e |-> p, text |-> <<"b">>] : p \in badpos, q \in good}
     \cup UNION {{[full |-> FALSE, s |-> PosOf(t, a, en), e |-> PosOf(t, b, en), text |-> <<"b">>]
            : b \in 0..(a - 1)} : a \in 1..Len(t)}

Init ==
  /\ enc \in Encs
  /\ ctext = [u \in Uris |-> Closed]
  /\ cver  = [u \in Uris |-> 0]
  /\ stext = [u \in Uris |-> Closed]
  /\ sver  = [u \in Uris |-> 0]
  /\ chan  = <<>>
  /\ steps = 0

Tick == steps < MaxSteps /\ steps' = steps + 1

ClientOpen(u) ==
  /\ ctext[u] = Closed /\ Tick
  /\ \E t \in TextsUpTo(MaxInit) :
       /\ ctext' = [ctext EXCEPT ![u] = t]
       /\ cver' = [cver EXCEPT ![u] = @ + 1]
       /\ chan' = Append(chan, [op |-> "open", u |-> u, text |-> t, ver |-> cver[u] + 1, cs |-> <<>>])
  /\ UNCHANGED <<enc, stext, sver>>

ClientChange(u) ==
  /\ ctext[u] # Closed /\ Tick
  /\ \E b \in Batches(ctext[u], enc, MaxBatch) :
       /\ Len(b[Len(b)].res) <= MaxLen
       /\ ctext' = [ctext EXCEPT ![u] = b[Len(b)].res]
       /\ cver' = [cver EXCEPT ![u] = @ + 1]
       /\ chan' = Append(chan, [op |-> "change", u |-> u, text |-> <<>>, ver |-> cver[u] + 1,
                                cs |-> [i \in 1..Len(b) |-> Strip(b[i])]])
  /\ UNCHANGED <<enc, stext, sver>>

ClientClose(u) ==
  /\ ctext[u] # Closed /\ Tick
  /\ ctext' = [ctext EXCEPT ![u] = Closed]
  /\ chan' = Append(chan, [op |-> "close", u |-> u, text |-> <<>>, ver |-> 0, cs |-> <<>>])
  /\ UNCHANGED <<enc, cver, stext, sver>>

(* a refused notification: valid first change, then a bad one, so that partial
   application would show                                                    *)
ClientBad(u) ==
  /\ ctext[u] # Closed /\ Tick
  /\ \E b \in BadChanges(ctext[u], enc), first \in {<<>>, <<"x">>} :
       chan' = Append(chan,
          [op |-> "change", u |-> u, text |-> <<>>, ver |-> cver[u] + 7,
           cs |-> IF first = <<>> THEN <<b>>
                  ELSE <<[full |-> FALSE, s |-> [line |-> b.s.line, ch |-> 0], e |-> [line |-> b.s.line, ch |-> 0], text |-> <<>>], b>>])
  /\ UNCHANGED <<enc, ctext, cver, stext, sver>>

(* ---- the server ---- *)
ServerStep ==
  /\ chan # <<>>
  /\ LET m == Head(chan) IN
     CASE m.op = "open"  -> /\ stext' = [stext EXCEPT ![m.u] = m.text]
                            /\ sver'  = [sver EXCEPT ![m.u] = m.ver]
       [] m.op = "close" -> /\ stext' = [stext EXCEPT ![m.u] = Closed]
                            /\ sver'  = sver
       [] OTHER ->
            IF stext[m.u] = Closed \/ ApplyBatch(stext[m.u], m.cs, enc) = {}
            THEN UNCHANGED <<stext, sver>>                          \* refused
            ELSE \E t \in ApplyBatch(stext[m.u], m.cs, enc) :
                   /\ stext' = [stext EXCEPT ![m.u] = t]
                   /\ sver'  = [sver EXCEPT ![m.u] = m.ver]
  /\ chan' = Tail(chan)
  /\ UNCHANGED <<enc, ctext, cver, steps>>

Next == ServerStep \/ \E u \in Uris : ClientOpen(u) \/ ClientChange(u) \/ ClientClose(u) \/ ClientBad(u)

Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Synced == chan = <<>> => \A u \in Uris :
            /\ stext[u] = ctext[u]
            /\ (ctext[u] # Closed => sver[u] = cver[u])

(* conversion laws of the specification itself *)
RoundTrip == \A u \in Uris : stext[u] # Closed =>
   \A k \in 0..Len(stext[u]), en \in Encodings :
      IdxOf(stext[u], PosOf(stext[u], k, en), en) = {k}
=============================================================================
