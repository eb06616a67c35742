------------------------------ MODULE Session ------------------------------
(* The VS Code extension's server session: requests to start, stop and restart  *)
(* are made at any time, and served one after the other; which binary is run     *)
(* depends on trust, the settings of the root folder and what is on the machine. *)
(*   world: [trusted, bundled, env: BOOLEAN, folders: Seq([len, exists]), set]    *)
(*   set[f + 1]: settings of folder f (0: none open, the current directory):      *)
(*     [strategy: "bundled" | "environment" | "path" | "" (not set),              *)
(*      path: "" | name, there: BOOLEAN]; level: of the log, "" or set by the user *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES world, queue, pc, status, log, answers, starts, stops, broken, stuck
(* broken, stuck: which starts and stops of a server fail; starts, stops: how many there were *)
svars == <<world, queue, pc, status, log, answers, starts, stops, broken, stuck>>

(* ---- which folder's settings count ---- *)
There(w) == {f \in 1..Len(w.folders) : w.folders[f].exists}
Root(w) ==
  IF w.folders = <<>> THEN 0
  ELSE IF Len(w.folders) = 1 \/ There(w) = {} THEN 1
  ELSE CHOOSE f \in There(w) : \A g \in There(w) : w.folders[f].len < w.folders[g].len \/ (w.folders[f].len = w.folders[g].len /\ f <= g)
(* ---- which binary is run: "" if there is none ---- *)
First(c) == IF c = <<>> THEN "" ELSE c[1]
Bundled(w) == IF w.bundled THEN <<"bundled">> ELSE <<>>
Env(w) == IF w.env THEN <<"environment">> ELSE <<>>
Binary(w) ==
  LET s == w.set[Root(w) + 1] IN
  IF ~w.trusted THEN First(Bundled(w))
  ELSE CASE s.strategy \in {"", "bundled"} -> First(Bundled(w) \o Env(w))
         [] s.strategy = "environment" -> First(Env(w) \o Bundled(w))
         [] s.strategy = "path" -> IF s.there THEN s.path ELSE ""

SInit(w, q, b, t) == /\ world = w /\ queue = q /\ broken = b /\ stuck = t
                     /\ pc = "idle" /\ status = "" /\ log = <<>> /\ answers = <<>> /\ starts = 0 /\ stops = 0
Say(e) == log' = Append(log, e)
Answer(a) == /\ answers' = Append(answers, a) /\ queue' = Tail(queue) /\ pc' = "idle"
Keep == UNCHANGED <<world, broken, stuck>>
(* the next request is looked at *)
Begin == /\ pc = "idle" /\ queue # <<>> /\ Keep
         /\ LET k == Head(queue) IN
            IF (k = "start" /\ status # "") \/ (k = "stop" /\ status = "") THEN Answer("ok") /\ UNCHANGED <<status, log, starts, stops>>
            ELSE IF k # "start" /\ status # "" THEN pc' = "stopping" /\ stops' = stops + 1 /\ Say(<<"stop">>) /\ UNCHANGED <<queue, status, answers, starts>>
            ELSE pc' = "resolving" /\ UNCHANGED <<queue, status, log, answers, starts, stops>>
(* the server is gone, or at least given up *)
Stopped == /\ pc = "stopping" /\ Keep /\ status' = "" /\ UNCHANGED <<starts, stops>>
           /\ IF stops \in stuck THEN Say(<<"stop failed">>) /\ Answer("error")
              ELSE Say(<<"stopped">>) /\ IF Head(queue) = "stop" THEN Answer("ok") ELSE pc' = "resolving" /\ UNCHANGED <<queue, answers>>
Resolve == /\ pc = "resolving" /\ Keep /\ UNCHANGED <<status, stops>>
           /\ IF Binary(world) = "" THEN Answer("error") /\ UNCHANGED <<log, starts>>
              ELSE pc' = "starting" /\ starts' = starts + 1 /\ Say(<<"start", Binary(world), IF world.level = "" THEN "debug" ELSE world.level>>) /\ UNCHANGED <<queue, answers>>
Started == /\ pc = "starting" /\ Keep /\ UNCHANGED <<starts, stops>>
           /\ IF starts \in broken THEN Say(<<"start failed">>) /\ Answer("error") /\ UNCHANGED status
              ELSE Say(<<"started">>) /\ Answer("ok") /\ status' = Binary(world)
Serve == Begin \/ Stopped \/ Resolve \/ Started

(* ---- what holds ---- *)
Count(e) == Cardinality({i \in 1..Len(log) : log[i][1] = e})
(* servers that were started and not yet told to stop *)
Running == Count("started") - Count("stop")
AtMostOne == Running \in 0..1 /\ (Running = 1 => pc \notin {"starting", "resolving"})
Known == pc = "idle" => (status # "") = (Running = 1)
(* each start is after the end of the one before it, each stop of a server that runs *)
Alternates == \A i \in 1..Len(log) : log[i][1] = "start" => (i = 1 \/ log[i - 1][1] \in {"stopped", "stop failed", "start failed"})
(* a workspace that is not trusted never decides what is run *)
Trust == ~world.trusted => \A i \in 1..Len(log) : log[i][1] = "start" => log[i][2] = "bundled"
Prefers == \A i \in 1..Len(log) : log[i][1] = "start" =>
   LET s == world.set[Root(world) + 1] IN
   /\ (world.trusted /\ s.strategy = "path") => log[i][2] = s.path
   /\ (log[i][2] = "environment") => world.env /\ (s.strategy # "environment" => ~world.bundled)
=============================================================================
