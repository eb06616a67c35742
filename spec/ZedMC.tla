-------------------------------- MODULE ZedMC --------------------------------
EXTENDS Zed, Json
CONSTANTS Steps, Wide
VARIABLES hist, first
vs == <<zvars, hist, first>>
Names == {"jarl-1.0", "jarl-2.0", "old", "junk.txt"}
D(a, b, c, d) == ("jarl-1.0" :> a) @@ ("jarl-2.0" :> b) @@ ("old" :> c) @@ ("junk.txt" :> d)
Disks == {D("absent", "absent", "absent", "absent"), D("full", "absent", "absent", "absent"), D("hole", "full", "dir", "file"), D("dir", "absent", "dir", "file")}
I(s, w, v, h, d) == [set |-> s, path |-> "/opt/my jarl", args |-> IF s = "both" THEN <<>> ELSE <<"server", "--log-level", "debug">>,
                     which |-> w, ver |-> v, has |-> h, dl |-> d]
AllInputs == {I(s, w, v, h, d) : s \in {"err", "nobin", "path", "args", "both", "empty"}, w \in {"", "/usr/bin/jarl"}, v \in {"", "1.0", "2.0"}, h \in BOOLEAN, d \in {"ok", "fail", "partial", "hollow"}}
Inputs == IF Wide THEN AllInputs
          ELSE {i \in AllInputs : /\ (i.set \in {"nobin"} \/ (i.set \in {"path", "args"} /\ i.ver = "2.0" /\ i.has /\ i.dl = "ok" /\ i.which = ""))
                                  /\ (i.which # "" => i.ver = "1.0" /\ i.has /\ i.dl = "ok")
                                  /\ (i.ver = "" => i.has /\ i.dl = "ok") /\ (~i.has => i.dl = "ok")}
Plats == IF Wide THEN {"mac", "linux", "windows"} \X {"aarch64", "x86", "x8664"} ELSE {<<"mac", "aarch64">>, <<"linux", "x8664">>, <<"windows", "x86">>}
Init == /\ ZInit /\ hist = <<>> /\ disk \in Disks /\ first = disk
        /\ \E p \in Plats : os = p[1] /\ arch = p[2]
Op(o, i) == hist' = Append(hist, [op |-> o, i |-> i, res |-> last', disk |-> disk', cache |-> cache']) /\ first' = first
\* files that may stay do stay: the harness compares up to that
KeepFiles == \A n \in Names : disk[n] = "file" => disk'[n] = "file"
Next == /\ Len(hist) < Steps
        /\ \/ \E i \in Inputs : Launch(i) /\ KeepFiles /\ Op("launch", i)
           \/ Restart /\ cache # NoCache /\ Op("restart", <<>>)
           \/ ~Wide /\ \E n \in {"jarl-1.0", "jarl-2.0"}, to \in {"absent", "dir"} :
                  disk[n] = "full" /\ Wipe(n, to) /\ Op("wipe", [name |-> n, to |-> to])
           \/ Wide /\ \E i \in {x \in Inputs : x.which = "" /\ x.ver = "" /\ x.has /\ x.dl = "ok"} : Options(i) /\ Op("options", i)
Spec == Init /\ [][Next]_vs
LastOp == IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]
\* the order of preference
Preference == hist # <<>> /\ LastOp.op = "launch" =>
   LET i == LastOp.i r == LastOp.res IN
   /\ Path(i) # "" => r.ok /\ r.cmd = Path(i)
   /\ (Path(i) = "" /\ i.which # "") => r.ok /\ r.cmd = i.which
   /\ r.dls # <<>> => Path(i) = "" /\ i.which = ""
OneDownload == (hist # <<>> /\ LastOp.op = "launch") => Len(LastOp.res.dls) <= 1
\* what is remembered and on disk is never fetched again
Remembered == Len(hist) >= 2 =>
   LET a == hist[Len(hist) - 1] b == LastOp IN
   (b.op = "launch" /\ a.cache # NoCache /\ a.disk[Dir(a.cache)] = "full") => b.res.ok /\ b.res.dls = <<>>
\* only a completed download removes anything, and never what it fetched
OnlyThen == hist # <<>> /\ LastOp.op = "launch" =>
   LET before == IF Len(hist) = 1 THEN first ELSE hist[Len(hist) - 1].disk IN
   \A n \in Names : before[n] # "absent" /\ LastOp.disk[n] = "absent" =>
        LastOp.res.ok /\ Len(LastOp.res.dls) = 1 /\ LastOp.res.dls[1].dir # n
Emit == Len(hist) = Steps => PrintT(ToJson([os |-> os, arch |-> arch, disk |-> first, h |-> hist]))
=============================================================================
