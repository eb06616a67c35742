-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* Which configuration governs a file.  A tree of directories (1 is the top), *)
(* each with at most one visible (jarl.toml) and one hidden (.jarl.toml)       *)
(* configuration file, and a user-level configuration (directory 0).           *)
(*                                                                         *)
(* The machine takes one argument after the other: from its directory it walks  *)
(* up until it meets a configuration, or takes the user-level one; then it      *)
(* walks down below directories.  The configurations it met are read, and each    *)
(* file is given to the nearest one above it.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tree, cfg, has, args, todo, found, phase, gov
cvars == <<tree, cfg, has, args, todo, found, phase, gov>>
(* tree[d]: parent (0: none); cfg[d]: configuration files of d, cfg[0]: user level;  *)
(* has: directories with an R file; args: set of [k |-> "file" or "dir", d |-> d]     *)
Kinds == {"none", "visible", "hidden", "both", "empty", "bad", "badhidden", "shadowed", "badboth"}
(* the file that counts: a visible one takes precedence over a hidden one          *)
Counts(c) == CASE c \in {"visible", "both", "shadowed"} -> "visible" [] c = "hidden" -> "hidden" [] c = "empty" -> "empty"
               [] c \in {"bad", "badboth"} -> "bad" [] c = "badhidden" -> "badhidden" [] OTHER -> "none"
Malformed(d) == Counts(cfg[d]) \in {"bad", "badhidden"}
Dirs == 1..Len(tree)
RECURSIVE Above(_)
Above(d) == IF d = 0 THEN <<>> ELSE <<d>> \o Above(tree[d])
Under(x, d) == \E k \in 1..Len(Above(x)) : Above(x)[k] = d
(* the first directory from d upwards that is in the set s, or 0 *)
RECURSIVE Up(_, _)
Up(d, s) == IF d = 0 \/ d \in s THEN d ELSE Up(tree[d], s)
Configured == {d \in Dirs : Counts(cfg[d]) # "none"}
(* -1: the defaults *)
Asked == {d \in has : \E a \in args : IF a.k = "file" THEN a.d = d ELSE Under(d, a.d)}

CInit(t, c, h, a) == tree = t /\ cfg = c /\ has = h /\ args = a /\ todo = a /\ found = {} /\ phase = "look" /\ gov = <<>>
Const == UNCHANGED <<tree, cfg, has, args>>
Look == /\ phase = "look" /\ todo # {}
        /\ \E a \in todo :
             /\ todo' = todo \ {a}
             /\ LET u == Up(a.d, Configured)
                    above == IF u # 0 THEN {u} ELSE IF Counts(cfg[0]) # "none" THEN {0} ELSE {}
                    below == IF a.k = "dir" THEN {d \in Configured : Under(d, a.d)} ELSE {}
                IN found' = found \cup above \cup below
        /\ Const /\ UNCHANGED <<phase, gov>>
Read == /\ phase = "look" /\ todo = {}
        /\ phase' = IF \E d \in found : Malformed(d) THEN "error" ELSE "resolve"
        /\ todo' = Asked /\ Const /\ UNCHANGED <<found, gov>>
Resolve == /\ phase = "resolve" /\ todo # {}
           /\ LET d == CHOOSE x \in todo : \A y \in todo : x <= y
                  u == Up(d, found) IN
              /\ todo' = todo \ {d}
              /\ gov' = (d :> IF u # 0 \/ 0 \in found THEN u ELSE -1) @@ gov
           /\ Const /\ UNCHANGED <<found, phase>>
Finish == phase = "resolve" /\ todo = {} /\ phase' = "end" /\ Const /\ UNCHANGED <<todo, found, gov>>
CNext == Look \/ Read \/ Resolve \/ Finish
Ended == phase \in {"end", "error"}

(* the property, without the machine *)
Gov(d) == LET up == {k \in 1..Len(Above(d)) : Counts(cfg[Above(d)[k]]) # "none"} IN
          IF up # {} THEN Above(d)[CHOOSE k \in up : \A l \in up : k <= l] ELSE IF Counts(cfg[0]) # "none" THEN 0 ELSE -1
Broken == {g \in {Gov(d) : d \in Asked} : g # -1 /\ Malformed(g)}
Which(g) == IF g = -1 THEN "default" ELSE Counts(cfg[g])
Nearest == phase = "end" => DOMAIN gov = Asked /\ \A d \in Asked : gov[d] = Gov(d)
NotIgnored == /\ (phase = "end" => Broken = {})
              /\ (phase = "error" => \E d \in {0} \cup Dirs : Malformed(d))
(* what a run may do: fail, or give every file its configuration *)
MustFail == Broken # {}
MayFail == \E d \in {0} \cup Dirs : Malformed(d)
===============================================================================
