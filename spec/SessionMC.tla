----------------------------- MODULE SessionMC -----------------------------
(* Requests come at any time while others are served. Part: "worlds" (every world, few requests) or "histories" (few worlds, every history) *)
EXTENDS Session, TLC, Json
CONSTANTS Part, Most
VARIABLE asked
Some == [strategy : {"bundled", "environment"}, path : {""}, there : {FALSE}] \cup [strategy : {"path"}, path : {"", "own0"}, there : {TRUE, FALSE}] \cup [strategy : {""}, path : {"own0"}, there : {TRUE}]
Own(f) == [strategy |-> "path", path |-> "own" \o ToString(f), there |-> TRUE]
NoFolder == [level : {"", "trace"}, trusted : BOOLEAN, bundled : BOOLEAN, env : BOOLEAN, folders : {<<>>}, set : {<<s>> : s \in {x \in Some : x.path = "" => ~x.there}}]
Folders(n) == [1..n -> [len : 1..3, exists : BOOLEAN]]
InFolders == UNION {{[level |-> "", trusted |-> TRUE, bundled |-> TRUE, env |-> TRUE, folders |-> fs, set |-> [f \in 1..(n + 1) |-> Own(f - 1)]] : fs \in Folders(n)} : n \in 1..3}
Plain == {[level |-> "", trusted |-> TRUE, bundled |-> b, env |-> FALSE, folders |-> <<>>, set |-> <<[strategy |-> "bundled", path |-> "", there |-> FALSE]>>] : b \in BOOLEAN}
Init == /\ asked = <<>>
        /\ \E w \in (IF Part = "worlds" THEN NoFolder \cup InFolders ELSE Plain), b \in SUBSET (IF Part = "worlds" THEN {} ELSE 1..2), t \in SUBSET (IF Part = "worlds" THEN {} ELSE 1..2) : SInit(w, <<>>, b, t)
Ask == /\ Len(asked) < Most
       /\ \E k \in (IF Part = "worlds" THEN {"start"} ELSE {"start", "stop", "restart"}) : asked' = Append(asked, k) /\ queue' = Append(queue, k)
       /\ UNCHANGED <<world, pc, status, log, answers, starts, stops, broken, stuck>>
Next == Ask \/ (Serve /\ UNCHANGED asked)
vs == <<svars, asked>>
Spec == Init /\ [][Next]_vs /\ WF_vs(Serve /\ UNCHANGED asked)
(* every request is answered, in the order in which they were made *)
Answered == <>[](pc = "idle" /\ queue = <<>> /\ Len(answers) = Len(asked))
Emit == (Len(asked) = Most /\ queue = <<>>) => PrintT(ToJson([world |-> world, ops |-> asked, broken |-> broken, stuck |-> stuck, log |-> log, answers |-> answers, status |-> status]))
=============================================================================
