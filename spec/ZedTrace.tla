------------------------------ MODULE ZedTrace ------------------------------
(* Recorded histories of the extension: [os, arch, disk, h]; the remembered binary is not observed. *)
EXTENDS Zed, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n
R == Rec[l]
H == R.h[n]
TInit == ZInit /\ l \in 1..Len(Rec) /\ n = 1 /\ os = R.os /\ arch = R.arch /\ disk = R.disk
Obs == last' = H.res /\ disk' = H.disk
TNext == /\ n <= Len(R.h) /\ n' = n + 1 /\ l' = l
         /\ CASE H.op = "launch" -> Launch(H.i) /\ Obs
              [] H.op = "restart" -> Restart
              [] H.op = "wipe" -> Wipe(H.i.name, H.i.to)
              [] H.op = "options" -> Options(H.i) /\ Obs
TSpec == TInit /\ [][TNext]_<<zvars, l, n>>
Accepted == (n <= Len(R.h) /\ ~ENABLED TNext) => PrintT(ToJson([rejected |-> l]))
=============================================================================
