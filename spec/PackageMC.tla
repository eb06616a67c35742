------------------------------ MODULE PackageMC ------------------------------
(* Small trees: two packages (one may live in the tests of the other), every   *)
(* placement of a few lines.                                                  *)
EXTENDS Package, Json, TLC
CONSTANTS Pool, NFiles, MaxItems, Lines, Spaces, Skips, Emits
LineSeqs == UNION {[1..m -> 1..Len(Lines)] : m \in 0..MaxItems}
Make(place, c) == [pkg |-> place.pkg, place |-> place.place, rank |-> place.rank, on |-> place.on, tall |-> TRUE, items |-> [j \in 1..Len(c) |-> Lines[c[j]]]]
Fits(place, c) == \A j \in 1..Len(c) : place.place = "src" <=> Lines[c[j]].k = "macro"
Init == \E idx \in {s \in [1..NFiles -> 1..Len(Pool)] : \A a, b \in 1..NFiles : a < b => s[a] < s[b]} :
          /\ \E k \in 1..NFiles : Pool[idx[k]].place = "R" /\ Pool[idx[k]].on /\ Pool[idx[k]].pkg = 1
          /\ \E c \in [1..NFiles -> LineSeqs] : \E s1 \in Spaces : \E sk \in Skips :
               /\ \A k \in 1..NFiles : Fits(Pool[idx[k]], c[k]) /\ (Pool[idx[k]].place # "R" => Len(c[k]) = 1)
               /\ PInit([k \in 1..NFiles |-> Make(Pool[idx[k]], c[k])], <<s1, [there |-> TRUE, dirs |-> <<>>]>>, {"dup", "unused"}, sk)
Spec == Init /\ [][PNext]_pvars
(* ---- what may not matter: compare what is right for other trees *)
Pieces(fs, r) == {[r |-> x.r, rank |-> fs[x.f].rank, l |-> x.l, n |-> x.n, orank |-> fs[x.of].rank, ol |-> x.ol] : x \in r}
Tree(fs) == INSTANCE Package WITH files <- fs
Of(fs, p) == SelectSeq(fs, LAMBDA f : f.pkg = p)
Local == phase = "scan" /\ todo = Files => \A p \in 1..2 : Pieces(Of(files, p), Tree(Of(files, p))!Right) = {x \in Pieces(files, Right) : \E f \in Files : files[f].rank = x.rank /\ files[f].pkg = p}
With(p, place, n) == Append(files, [pkg |-> p, place |-> place, rank |-> 99, on |-> TRUE, tall |-> TRUE, items |-> <<[k |-> "use", n |-> n, ign |-> <<>>]>>])
(* one more use of a name adds no report, and takes the report of that name in the R code away *)
MoreUse == phase = "scan" /\ todo = Files => \A place \in {"R", "sub", "tests", "src"} : \A x \in Right :
             LET more == With(files[x.f].pkg, place, x.n) r == Tree(more)!Right IN
             /\ r \subseteq Right
             /\ x.r = "unused" /\ ScopeOf(x.f) = "R" => x \notin r
             /\ x.r = "dup" => x \in r
Outside == phase = "scan" /\ todo = Files => \A n \in {Lines[k].n : k \in 1..Len(Lines)} : Tree(With(1, "else", n))!Right = Right /\ Tree(With(0, "else", n))!Right = Right
Emit == Ended /\ Emits => PrintT(ToJson([files |-> files, spaces |-> spaces, skip |-> skip, sel |-> sel, want |-> reports]))
=============================================================================
