------------------------------ MODULE DocTrace ------------------------------
(***************************************************************************)
(* Checks traces recorded from the real document store against DocSync.     *)
(* Each trace line is one event of one session; sessions follow each other  *)
(* ("start" resets).  A branch is allowed only where the specification      *)
(* allows several texts; the logged text selects one.                       *)
(***************************************************************************)
EXTENDS DocSync, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, docs, en
tvars == <<vars, l, docs, en>>

Dummy == Init /\ enc = "utf8"

TInit == Dummy /\ l = 1 /\ docs = [u \in {"d1", "d2", "d3"} |-> Closed] /\ en = "utf8"

IsEvent(e) == l <= Len(Trace) /\ Trace[l].event = e /\ l' = l + 1 /\ UNCHANGED vars
Ev == Trace[l]

Same(u, d) == IF d = Closed THEN ~Ev.open ELSE Ev.open /\ Ev.text = d.text /\ Ev.ver = d.ver /\ Ev.lines = NumLines(d.text)

TStart == IsEvent("start") /\ en' = Ev.enc /\ docs' = [u \in DOMAIN docs |-> Closed]

TOpen == /\ IsEvent("open")
         /\ docs' = [docs EXCEPT ![Ev.u] = [text |-> Ev.arg, ver |-> Ev.argver]]
         /\ Ev.ok /\ Same(Ev.u, docs'[Ev.u]) /\ UNCHANGED en

TChange == /\ IsEvent("change") /\ UNCHANGED en
           /\ LET d == docs[Ev.u]
                  R == IF d = Closed THEN {} ELSE ApplyBatch(d.text, Ev.cs, en)
              IN IF R = {} THEN ~Ev.ok /\ UNCHANGED docs /\ Same(Ev.u, d)
                 ELSE /\ Ev.ok /\ Ev.text \in R
                      /\ docs' = [docs EXCEPT ![Ev.u] = [text |-> Ev.text, ver |-> Ev.argver]]
                      /\ Same(Ev.u, docs'[Ev.u])

TClose == /\ IsEvent("close") /\ UNCHANGED en
          /\ Ev.ok = (docs[Ev.u] # Closed)
          /\ docs' = [docs EXCEPT ![Ev.u] = Closed]
          /\ ~Ev.open

(* lookups: res = -1 means refused *)
TPos == /\ IsEvent("p2o") /\ UNCHANGED <<docs, en>>
        /\ LET t == docs[Ev.u].text
               ex == {ByteOf(t, i) : i \in IdxOf(t, Ev.p, en)}
               ne == {ByteOf(t, i) : i \in NearIdx(t, Ev.p, en)}
           IN IF ex # {} THEN Ev.res \in ex ELSE Ev.res \in ne \cup {-1}

TOff == /\ IsEvent("o2p") /\ UNCHANGED <<docs, en>>
        /\ LET t == docs[Ev.u].text
               ex == {PosOf(t, i, en) : i \in AtByte(t, Ev.o)}
               ne == {PosOf(t, i, en) : i \in NearByte(t, Ev.o)}
           IN IF ex # {} THEN Ev.ok /\ Ev.res \in ex ELSE ~Ev.ok \/ Ev.res \in ne

TNext == TStart \/ TOpen \/ TChange \/ TClose \/ TPos \/ TOff
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Trace)
  \/ PrintT(ToJson([rejected |-> TLCGet("stats").diameter])) /\ FALSE
=============================================================================
