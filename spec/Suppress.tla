------------------------------ MODULE Suppress ------------------------------
(***************************************************************************)
(* Suppression comments in R files and notebooks.  A document is read line  *)
(* by line.  Lines of code are statements with or without a violation of     *)
(* rule r ("A" or "B"), or open / close a block: "brace" ({ .. }, bodies of  *)
(* functions and control flow), "call" (arguments of a call over several lines)*)
(* or "wrap" (a block which is itself part of a violation, from its opening to *)
(* its closing line).  A line may carry an end-of-line comment t.  "chunk" starts the    *)
(* next chunk of a notebook; "torn" does not parse: all its chunk is skipped,  *)
(* whatever it holds, and the next chunk starts.                              *)
(*                                                                            *)
(* What the documentation promises:                                           *)
(*  - a standard comment hides violations of its rule in the block (statement *)
(*    or argument, with all it contains) that follows it;                     *)
(*  - a start comment matches the next end comment for the same rule at the   *)
(*    same brace depth (of its chunk), innermost first;                       *)
(*  - a file comment counts before any code (of the first chunk), and hides   *)
(*    its rule in the whole file;                                             *)
(*  - items of a chunk array hide their rule in their chunk;                  *)
(*  - everything else that looks like a suppression is a defect to report.    *)
(* A standard comment with nothing after it in its block is an orphan; the    *)
(* documentation is silent on it: it may or may not count for the statement   *)
(* before it.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES doc, stack, pend, arr, code, ch, starts, sups, viols, defects
svars == <<doc, stack, pend, arr, code, ch, starts, sups, viols, defects>>

L(k, r, t) == [k |-> k, r |-> r, t |-> t]
Code(k)  == k \in {"v", "ok", "fn", "if", "else", "brace", "call", "wrap", "close"}
Level    == Cardinality({i \in 1..Len(stack) : stack[i].k # "call"})
NoRange  == [lo |-> 0, hi |-> -1]
SInit == /\ doc = <<>> /\ stack = <<[k |-> "call", r |-> "", from |-> 0, own |-> {}, prev |-> NoRange]>>   \* the chunk itself
         /\ pend = {} /\ arr = [on |-> FALSE, hdr |-> 0] /\ code = FALSE /\ ch = 1
         /\ starts = <<>> /\ sups = <<>> /\ viols = <<>> /\ defects = {}
Top == stack[Len(stack)]
N == Len(doc) + 1                                         \* number of the line being read

(* the array of chunk suppressions ends at any line that is not an item *)
ArrayEnd(D) == IF arr.on /\ arr.hdr # 0 THEN D \cup {<<arr.hdr, "blanket">>} ELSE D
Misplaced(x, D) == IF x.t = "" THEN D ELSE D \cup {<<N, "misplaced">>}
Sup(k, r) == [k |-> k, r |-> r, line |-> N, lo |-> 0, hi |-> -1, ch |-> ch, orphan |-> FALSE]
Settle(S, which, lo, hi) == [i \in 1..Len(S) |-> IF i \in which THEN [S[i] EXCEPT !.lo = lo, !.hi = hi] ELSE S[i]]
Orphans(S, which, p) == [i \in 1..Len(S) |-> IF i \in which THEN [S[i] EXCEPT !.lo = p.lo, !.hi = p.hi, !.orphan = TRUE] ELSE S[i]]
SetPrev(st, lo, hi) == [st EXCEPT ![Len(st)].prev = [lo |-> lo, hi |-> hi]]
Unarr == arr' = [on |-> FALSE, hdr |-> 0]

Statement(x) == /\ x.k \in {"v", "ok"}
                /\ sups' = Settle(sups, pend, N, N) /\ pend' = {} /\ code' = TRUE /\ Unarr
                /\ stack' = SetPrev(stack, N, N)
                /\ viols' = IF x.k = "v" THEN Append(viols, [r |-> x.r, line |-> N, hi |-> N, ch |-> ch]) ELSE viols
                /\ defects' = Misplaced(x, ArrayEnd(defects))
                /\ UNCHANGED <<starts, ch>>
Open(x) == /\ x.k \in {"fn", "if", "brace", "call", "wrap"}
           /\ stack' = Append(stack, [k |-> x.k, r |-> x.r, from |-> N, own |-> pend, prev |-> NoRange])
           /\ pend' = {} /\ code' = TRUE /\ Unarr
           /\ defects' = Misplaced(x, ArrayEnd(defects))
           /\ UNCHANGED <<sups, starts, viols, ch>>
(* comments after the last statement of a block *)
BlockEnd(S) == Orphans(S, pend, Top.prev)
Else(x) == /\ x.k = "else" /\ Top.k = "if"
           /\ sups' = BlockEnd(sups) /\ pend' = {} /\ code' = TRUE /\ Unarr
           /\ stack' = [stack EXCEPT ![Len(stack)].k = "fn", ![Len(stack)].prev = NoRange]
           /\ defects' = Misplaced(x, ArrayEnd(defects))
           /\ UNCHANGED <<starts, viols, ch>>
Close(x) == /\ x.k = "close" /\ Len(stack) > 1
            /\ sups' = Settle(BlockEnd(sups), Top.own, Top.from, N) /\ pend' = {} /\ Unarr /\ code' = TRUE
            /\ stack' = SetPrev(SubSeq(stack, 1, Len(stack) - 1), Top.from, N)
            /\ viols' = IF Top.k = "wrap" THEN Append(viols, [r |-> Top.r, line |-> Top.from, hi |-> N, ch |-> ch]) ELSE viols
            /\ defects' = Misplaced(x, ArrayEnd(defects))
            /\ UNCHANGED <<starts, ch>>
UnmatchedStarts(D) == D \cup {<<starts[i].line, "unmatched">> : i \in 1..Len(starts)}
Chunk(x) == /\ x.k = "chunk" /\ Len(stack) = 1
            /\ sups' = BlockEnd(sups) /\ pend' = {} /\ Unarr /\ code' = FALSE /\ ch' = ch + 1
            /\ stack' = SetPrev(stack, 0, -1) /\ starts' = <<>>
            /\ defects' = UnmatchedStarts(ArrayEnd(defects)) /\ UNCHANGED viols

(* nothing of this chunk counts; it is a chunk all the same: the next one is not the first *)
Torn(x) == /\ x.k = "torn" /\ (IF doc = <<>> THEN TRUE ELSE doc[Len(doc)].k \in {"chunk", "torn"})
           /\ ch' = ch + 1 /\ UNCHANGED <<stack, pend, arr, code, starts, sups, viols, defects>>

Comment(x) ==
  /\ ~Code(x.k) /\ x.k \notin {"chunk", "torn"} /\ UNCHANGED <<stack, code, ch, viols>>
  /\ IF x.k = "hdr" THEN
        /\ arr' = [on |-> TRUE, hdr |-> N] /\ defects' = ArrayEnd(defects) /\ UNCHANGED <<pend, starts, sups>>
     ELSE IF x.k \in {"item", "itembad", "itemno"} /\ arr.on THEN
        /\ arr' = [arr EXCEPT !.hdr = 0] /\ UNCHANGED <<pend, starts>>
        /\ sups' = IF x.k = "item" THEN Append(sups, Sup("chunk", x.r)) ELSE sups
        /\ defects' = IF x.k = "itembad" THEN defects \cup {<<N, "misnamed">>}
                      ELSE IF x.k = "itemno" THEN defects \cup {<<N, "unexplained">>} ELSE defects
     ELSE
        /\ Unarr
        /\ CASE x.k = "node"  -> /\ sups' = Append(sups, Sup("node", x.r)) /\ pend' = pend \cup {Len(sups) + 1}
                                 /\ defects' = ArrayEnd(defects) /\ UNCHANGED starts
             [] x.k = "start" -> /\ starts' = Append(starts, [r |-> x.r, lvl |-> Level, line |-> N])
                                 /\ defects' = ArrayEnd(defects) /\ UNCHANGED <<sups, pend>>
             [] x.k = "end"   -> LET m == {i \in 1..Len(starts) : starts[i].r = x.r /\ starts[i].lvl = Level} IN
                                 IF m = {} THEN defects' = ArrayEnd(defects) \cup {<<N, "unmatched">>} /\ UNCHANGED <<sups, pend, starts>>
                                 ELSE LET i == CHOOSE i \in m : \A j \in m : j <= i IN
                                      /\ starts' = SubSeq(starts, 1, i - 1) \o SubSeq(starts, i + 1, Len(starts))
                                      /\ sups' = Append(sups, [Sup("region", x.r) EXCEPT !.line = starts[i].line, !.lo = starts[i].line, !.hi = N])
                                      /\ defects' = ArrayEnd(defects) /\ UNCHANGED pend
             [] x.k = "file"  -> IF ~code /\ ch = 1 THEN sups' = Append(sups, Sup("file", x.r)) /\ defects' = ArrayEnd(defects) /\ UNCHANGED <<pend, starts>>
                                 ELSE defects' = ArrayEnd(defects) \cup {<<N, "misplaced_file">>} /\ UNCHANGED <<sups, pend, starts>>
             [] OTHER -> /\ UNCHANGED <<sups, pend, starts>>
                         /\ defects' = ArrayEnd(defects) \cup
                              (CASE x.k = "blanket" -> {<<N, "blanket">>} [] x.k = "badname" -> {<<N, "misnamed">>}
                                 [] x.k = "noexpl" -> {<<N, "unexplained">>} [] x.k = "chunk1" -> {<<N, "invalid_chunk">>} [] OTHER -> {})
Read(x) == /\ doc' = Append(doc, x)
           /\ \/ Statement(x) \/ Open(x) \/ Else(x) \/ Close(x) \/ Chunk(x) \/ Torn(x) \/ Comment(x)

(* ---- at the end of the document ---- *)
Complete == Len(stack) = 1
Sups == BlockEnd(sups)
Defects == UnmatchedStarts(ArrayEnd(defects))
Covers(s, v) == /\ s.r = v.r
                /\ CASE s.k = "file" -> TRUE [] s.k = "chunk" -> s.ch = v.ch
                     [] OTHER -> s.lo <= v.line /\ v.hi <= s.hi
Cov(v)  == {i \in 1..Len(Sups) : Covers(Sups[i], v)}
Sure(v) == {i \in Cov(v) : ~Sups[i].orphan}
(* what a linter may report: the violations `rep` (indices), and the suppressions
   `unused` (indices) as unused                                                  *)
Hides(rep) ==
  \A a \in 1..Len(viols) : (Cov(viols[a]) = {} => a \in rep) /\ (Sure(viols[a]) # {} => a \notin rep)
Accounts(rep, unused) ==
  /\ \A a \in 1..Len(viols) \ rep : Cov(viols[a]) # {} => \E i \in Cov(viols[a]) : i \notin unused
  /\ \A i \in 1..Len(Sups) : (~\E a \in 1..Len(viols) \ rep : i \in Cov(viols[a])) => i \in unused

(* ---- invariants of the specification ---- *)
RuleApart == \A a \in 1..Len(viols) : \A i \in Cov(viols[a]) : Sups[i].r = viols[a].r
ElsewhereNot == \A a \in 1..Len(viols) : \A i \in Cov(viols[a]) :
                  Sups[i].k \in {"node", "region", "chunk"} => Sups[i].ch = viols[a].ch
RegionsEnclose == \A i \in 1..Len(Sups) : Sups[i].k = "region" => Sups[i].lo < Sups[i].hi
FileFirst == \A i \in 1..Len(Sups) : Sups[i].k = "file" => \A j \in 1..(Sups[i].line - 1) : ~Code(doc[j].k) /\ doc[j].k \notin {"chunk", "torn"}
OneReport == \A d, e \in Defects : d[1] = e[1] => d = e
EveryComment == \A j \in 1..Len(doc) : doc[j].k \in {"node", "start", "file", "blanket", "badname", "noexpl", "chunk1"} =>
                  Cardinality({i \in 1..Len(Sups) : Sups[i].line = j}) + Cardinality({d \in Defects : d[1] = j}) = 1
=============================================================================
