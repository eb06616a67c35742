---------------------------- MODULE LspServerGen ----------------------------
(* Prints message sequences for the real server. *)
EXTENDS LspServerMC, Json
CONSTANTS Len0, Mode
VARIABLE seq
GInit == RInit /\ seq = <<>>
\* sequences that only repeat what the server ignores are not worth running
Useful(m) == Mode # "pub" \/ CASE m.k = "open" -> ~docs[m.doc].open
                                [] OTHER -> docs[m.doc].open
Step(m) == IF phase = "ended" THEN UNCHANGED svars
           ELSE IF m.k \in {"init", "init-bad"} THEN UNCHANGED svars ELSE Handle(m)
GNext == /\ Len(seq) < Len0 /\ UNCHANGED <<sent, want>>
         /\ \E a \in Alphabet : LET m == [k |-> a.k, doc |-> a.doc, n |-> a.n, id |-> Len(seq) + 10, ver |-> Len(seq) + 1] IN
              Useful(m) /\ seq' = Append(seq, m) /\ (IF phase = "ended" THEN FALSE ELSE Handle(m))
GSpec == GInit /\ [][GNext]_<<mvars, seq>>
Starts == {Msg("unknown", "A", 0), Msg("note", "A", 0), Msg("init-bad", "A", 0), Msg("exit", "A", 0), Msg("action", "A", 0), Msg("shutdown", "A", 0), Msg("init", "A", 0)}
GPrint == Len(seq) = Len0 \/ phase = "ended" => PrintT(ToJson([msgs |-> seq]))
HInit == SInit /\ sent = <<>> /\ want = [d \in Docs |-> <<0, 0>>] /\ seq = <<>>
HSpec == HInit /\ [][GNext /\ phase # "wait"]_<<mvars, seq>>
HPrint == PrintT(ToJson([msgs |-> seq]))
=============================================================================
