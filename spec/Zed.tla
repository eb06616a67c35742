--------------------------------- MODULE Zed ---------------------------------
(***************************************************************************)
(* The Zed extension over its launches.  State: the entries of the          *)
(* extension's own directory, the remembered binary, the platform.          *)
(* An entry is absent, a file, a dir (directory without the binary), full   *)
(* (directory with the binary in its place) or hole (a directory in the     *)
(* binary's place).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES os, arch, disk, cache, last
zvars == <<os, arch, disk, cache, last>>

Stem == "jarl-" \o (CASE arch = "aarch64" -> "aarch64" [] arch = "x86" -> "x86" [] arch = "x8664" -> "x86_64")
         \o "-" \o (CASE os = "mac" -> "apple-darwin" [] os = "linux" -> "unknown-linux-gnu" [] os = "windows" -> "pc-windows-msvc")
Asset == Stem \o (IF os = "windows" THEN ".zip" ELSE ".tar.gz")
Kind == IF os = "windows" THEN "zip" ELSE "gziptar"
Dir(v) == "jarl-" \o v
Bin(v) == IF os = "windows" THEN Dir(v) \o "/jarl.exe" ELSE Dir(v) \o "/" \o Stem \o "/jarl"

NoCache == "none"
Full(v) == Dir(v) \in DOMAIN disk /\ disk[Dir(v)] = "full"
\* an unfinished extraction leaves what was there
Left(v) == IF disk[Dir(v)] = "hole" THEN "hole" ELSE "dir"
Got(cmd, args, dls) == [ok |-> TRUE, cmd |-> cmd, args |-> args, dls |-> dls]
Failed(dls) == [ok |-> FALSE, cmd |-> "", args |-> <<>>, dls |-> dls]

ZInit == cache = NoCache /\ last = <<>>

(* what the user's settings say: s is err, nobin, or holds a path and/or arguments *)
Path(i) == IF i.set \in {"path", "both"} THEN i.path ELSE ""
Args(i) == IF i.set \in {"args", "both"} THEN i.args ELSE <<"server">>

(* i: set path args (settings), which, ver ("" = the query fails), has (the platform's asset is there), dl *)
Launch(i) ==
  /\ UNCHANGED <<os, arch>>
  /\ IF Path(i) # "" THEN last' = Got(Path(i), Args(i), <<>>) /\ UNCHANGED <<disk, cache>>
     ELSE IF i.which # "" THEN last' = Got(i.which, Args(i), <<>>) /\ UNCHANGED <<disk, cache>>
     ELSE IF cache # NoCache /\ Full(cache) THEN last' = Got(Bin(cache), Args(i), <<>>) /\ UNCHANGED <<disk, cache>>
     ELSE IF i.ver = "" \/ ~i.has THEN last' = Failed(<<>>) /\ UNCHANGED <<disk, cache>>
     ELSE IF Full(i.ver) THEN last' = Got(Bin(i.ver), Args(i), <<>>) /\ cache' = i.ver /\ UNCHANGED disk
     ELSE LET D == <<[asset |-> Asset, ver |-> i.ver, dir |-> Dir(i.ver), kind |-> Kind]>> IN
       CASE i.dl \in {"fail", "partial"} ->
              /\ last' = Failed(D) /\ UNCHANGED cache
              /\ disk' = IF i.dl = "partial" THEN [disk EXCEPT ![Dir(i.ver)] = Left(i.ver)] ELSE disk
         [] OTHER ->
              /\ last' = Got(Bin(i.ver), Args(i), D) /\ cache' = i.ver
              \* other directories go; plain files may stay
              /\ disk' \in {d \in [DOMAIN disk -> {"absent", "file", "dir", "full", "hole"}] :
                    \A n \in DOMAIN disk :
                      IF n = Dir(i.ver) THEN d[n] = (IF i.dl = "ok" THEN "full" ELSE Left(i.ver))
                      ELSE IF disk[n] = "file" THEN d[n] \in {"file", "absent"}
                      ELSE d[n] = "absent"}
Restart == cache' = NoCache /\ last' = <<>> /\ UNCHANGED <<os, arch, disk>>
Wipe(n, to) == /\ disk[n] # "absent" /\ disk' = [disk EXCEPT ![n] = to] /\ last' = <<>> /\ UNCHANGED <<os, arch, cache>>
(* initialization options and workspace configuration come from the settings, null without *)
Options(i) == /\ UNCHANGED <<os, arch, disk, cache>>
              /\ last' = IF i.set \in {"err", "nobin"} THEN <<"null", "null">> ELSE <<"init", "work">>

=============================================================================
