--------------------------------- MODULE Vcs ---------------------------------
(***************************************************************************)
(* Fixing and version control.  A tree of directories, some of which are the *)
(* root of a repository; each has at most one R file and one file of another  *)
(* kind, in one of the states that version control knows.  A run is asked to   *)
(* fix some of the R files.                                                   *)
(*                                                                         *)
(* The machine groups the files by repository, looks at each repository once,  *)
(* then rewrites file after file; Allowed states when that may happen at all.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tree, repos, file, other, viol, req, opts, phase, todo, groups, lone, written, outcome
vvars == <<tree, repos, file, other, viol, req, opts, phase, todo, groups, lone, written, outcome>>
(* tree[d]: the parent of directory d (0: none); file, other: state by directory;  *)
(* viol: directories whose file has something to fix; req: directories whose file  *)
(* is asked for; opts: [fix, dirty, novcs]                                         *)
States == {"absent", "clean", "modified", "staged", "untracked", "ignored", "removed"}
Dirs == 1..Len(tree)
RECURSIVE Owner(_)
Owner(d) == IF d = 0 THEN 0 ELSE IF d \in repos THEN d ELSE Owner(tree[d])
Changed == {"modified", "staged", "untracked", "removed"}
(* what `git status` of the repository of root r lists *)
Listed(r) == {d \in Dirs : Owner(d) = r /\ (file[d] \in Changed \/ other[d] \in Changed)}
There == {d \in Dirs : file[d] \notin {"absent", "removed"}}

VInit(t, r, f, o, v, q, op) ==
   /\ tree = t /\ repos = r /\ file = f /\ other = o /\ viol = v /\ req = q /\ opts = op
   /\ phase = "group" /\ todo = q /\ groups = {} /\ lone = {} /\ written = {} /\ outcome = "none"
Const == UNCHANGED <<tree, repos, file, other, viol, req, opts>>
Skip == /\ phase = "group" /\ ~opts.fix /\ phase' = "end" /\ outcome' = "reported" /\ Const /\ UNCHANGED <<todo, groups, lone, written>>
Group == /\ phase = "group" /\ opts.fix /\ todo # {} /\ LET d == CHOOSE x \in todo : \A y \in todo : x <= y IN
            /\ todo' = todo \ {d}
            /\ IF Owner(d) = 0 THEN lone' = lone \cup {d} /\ groups' = groups ELSE groups' = groups \cup {Owner(d)} /\ lone' = lone
         /\ Const /\ UNCHANGED <<phase, written, outcome>>
Grouped == /\ phase = "group" /\ opts.fix /\ todo = {}
           /\ IF lone # {} /\ ~opts.novcs THEN phase' = "end" /\ outcome' = "novcs" /\ todo' = todo
              ELSE IF opts.dirty THEN phase' = "write" /\ todo' = req /\ outcome' = outcome
              ELSE phase' = "status" /\ UNCHANGED <<todo, outcome>>
           /\ Const /\ UNCHANGED <<groups, lone, written>>
Status == /\ phase = "status"
          /\ IF groups = {} THEN phase' = "write" /\ todo' = req /\ UNCHANGED <<groups, outcome>>
             ELSE LET r == CHOOSE x \in groups : \A y \in groups : x <= y IN
                  /\ groups' = groups \ {r} /\ todo' = todo
                  /\ IF Listed(r) # {} THEN phase' = "end" /\ outcome' = "dirty" ELSE UNCHANGED <<phase, outcome>>
          /\ Const /\ UNCHANGED <<lone, written>>
Write == /\ phase = "write" /\ todo # {} /\ LET d == CHOOSE x \in todo : \A y \in todo : x <= y IN
            todo' = todo \ {d} /\ written' = (IF d \in viol THEN written \cup {d} ELSE written)
         /\ Const /\ UNCHANGED <<phase, groups, lone, outcome>>
Done == /\ phase = "write" /\ todo = {} /\ phase' = "end" /\ outcome' = "fixed" /\ Const /\ UNCHANGED <<todo, groups, lone, written>>
VNext == Skip \/ Group \/ Grouped \/ Status \/ Write \/ Done
Ended == phase = "end"

(* the property, by the files alone *)
InRepo(d) == \E r \in repos : Owner(d) = r
Clean(r) == \A d \in Dirs : Owner(d) = r => {file[d], other[d]} \cap Changed = {}
Allowed == opts.fix /\ \A d \in req : (InRepo(d) \/ opts.novcs) /\ (InRepo(d) => Clean(Owner(d)) \/ opts.dirty)
AllOrNothing == /\ written # {} => Allowed
                /\ Ended => written \in {{}, req \cap viol}
                /\ (Ended /\ opts.fix) => (Allowed <=> outcome = "fixed")
                /\ (Ended /\ Allowed) => written = req \cap viol
Unfixed == ~opts.fix => written = {} /\ (Ended => outcome = "reported")
=============================================================================
