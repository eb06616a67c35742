----------------------------- MODULE LspServerMC -----------------------------
(* All message sequences over an alphabet, with every order of the background *)
(* work; the guarantees of L04 and L05.                                       *)
EXTENDS LspServer
CONSTANTS Alphabet, MaxMsgs
VARIABLES sent,    \* requests the server took, in order
          want     \* Docs -> what the editor must show once everything is done: <<ver, n>>
mvars == <<svars, sent, want>>

Msg(k, doc, n) == [k |-> k, doc |-> doc, n |-> n]
Protocol == {Msg("unknown", "A", 0), Msg("action", "A", 0), Msg("action", "B", 0), Msg("action-bad", "A", 0), Msg("shutdown", "A", 0),
             Msg("exit", "A", 0), Msg("open", "A", 1), Msg("open-bad", "A", 0), Msg("change", "A", 2), Msg("change-bad", "A", 0),
             Msg("save", "A", 0), Msg("save-bad", "A", 0), Msg("close", "A", 0), Msg("note", "A", 0), Msg("resp", "A", 0), Msg("open", "A", -1),
             Msg("init", "A", 0), Msg("init-bad", "A", 0), Msg("initialized", "A", 0)}
Publishing == {Msg("open", "A", 1), Msg("change", "A", 2), Msg("change", "A", 0), Msg("change", "A", -1), Msg("save", "A", 0), Msg("close", "A", 0),
               Msg("open", "B", 2), Msg("change", "B", 1), Msg("save", "B", 0), Msg("close", "B", 0), Msg("action", "A", 0)}

ProtocolRun == {m \in Protocol : m.k \notin {"init", "init-bad", "initialized"}}
MInit == SInit /\ sent = <<>> /\ want = [d \in Docs |-> <<0, 0>>]
\* the session as it is after the handshake
RInit == /\ phase = "run" /\ clean = TRUE /\ jobs = {} /\ out = <<>>
         /\ docs = [d \in Docs |-> [open |-> FALSE, ver |-> 0, n |-> 0]]
         /\ tick = [d \in Docs |-> 0] /\ last = [d \in Docs |-> 0]
         /\ sent = <<>> /\ want = [d \in Docs |-> <<0, 0>>]
Take == /\ Len(sent) < MaxMsgs
        /\ \E a \in Alphabet : LET m == [k |-> a.k, doc |-> a.doc, n |-> a.n, id |-> Len(sent) + 1, ver |-> Len(sent) + 1] IN
             /\ ~(phase = "wait" /\ m.k # "initialized" /\ m.k # "exit")
             /\ Handle(m) /\ sent' = Append(sent, m)
             /\ want' = IF phase # "run" THEN want
                        ELSE IF m.k = "save" /\ docs[m.doc].open THEN [want EXCEPT ![m.doc] = <<docs[m.doc].ver, Diags(docs[m.doc].n)>>]
                        ELSE IF m.k = "close" /\ docs[m.doc].open THEN [want EXCEPT ![m.doc] = <<-1, 0>>] ELSE want
MNext == Take \/ (Background /\ UNCHANGED <<sent, want>>)
MSpec == MInit /\ [][MNext]_mvars
RSpec == RInit /\ [][MNext]_mvars

Answers(id) == {i \in 1..Len(out) : out[i].k = "ans" /\ out[i].id = id}
RequestIds == {i \in 1..Len(sent) : IsRequest(sent[i])}
Settled == jobs = {} /\ ~(phase = "ended" /\ ~clean)
AtMostOneAnswer == \A i \in RequestIds : Cardinality(Answers(i)) <= 1
OnlyRequestsAnswered == \A i \in 1..Len(out) : out[i].k = "ans" => out[i].id \in RequestIds
AllAnswered == Settled => \A i \in RequestIds : Cardinality(Answers(i)) = 1
UnknownRefused == \A i \in RequestIds : sent[i].k = "unknown" => \A a \in Answers(i) : ~out[a].ok
EndsWhenTold == /\ phase = "ended" => sent[Len(sent)].k = "exit"
                /\ (Len(sent) > 0 /\ sent[Len(sent)].k = "exit") => phase = "ended"
                /\ phase = "ended" => clean = \E i \in RequestIds : sent[i].k = "shutdown" /\ \E a \in Answers(i) : out[a].ok
PubsOf(d) == SelectSeq(out, LAMBDA m : m.k = "pub" /\ m.doc = d)
\* versions in the order of publication, within one opening of the document
NothingOlder == \A d \in Docs : LET p == PubsOf(d) IN
                  \A i, j \in 1..Len(p) : (i < j /\ p[i].ver >= 0 /\ p[j].ver >= 0) => p[i].ver <= p[j].ver
TrueVersions == \A i \in 1..Len(out) : (out[i].k = "pub" /\ out[i].ver >= 0) =>
                  LET m == sent[out[i].ver] IN m.k \in {"open", "change"} /\ m.doc = out[i].doc /\ Diags(m.n) = out[i].n
FinalText == Settled => \A d \in Docs : LET p == PubsOf(d) IN
               IF want[d] = <<0, 0>> THEN \A i \in 1..Len(p) : p[i].n = 0 ELSE p # <<>> /\ <<p[Len(p)].ver, p[Len(p)].n>> = want[d]
ClosedIsEmpty == Settled => \A d \in Docs : LET p == PubsOf(d) IN (~docs[d].open /\ p # <<>>) => p[Len(p)].n = 0
=============================================================================
