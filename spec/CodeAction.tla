----------------------------- MODULE CodeAction -----------------------------
(***************************************************************************)
(* The edits that the editor offers for a problem: ignore it with a comment  *)
(* before the code, or with a comment for the whole chunk it is in.  A        *)
(* document is a sequence of chunks ("```" between them); a file with only    *)
(* code is a document of one chunk, without comments for chunks.              *)
(*                                                                            *)
(* Whatever is asked, and in whatever order: an edit adds one comment, of the  *)
(* rule of the problem it was offered for, and the problem is gone afterwards;   *)
(* of what else was shown, only the same rule in the same code is gone.           *)
(***************************************************************************)
EXTENDS IgnoreEdit
VARIABLES ck,      \* comments for chunks: [c |-> number of the chunk, r |-> rule]
          last     \* what was asked for last
avars == <<ivars, ck, last>>

ChunkOf(n) == 1 + Cardinality({j \in 1..(n - 1) : flat.toks[j] = "```"})
Hidden(v, C, K) == (\E c \in C : Covers(c, v)) \/ [c |-> ChunkOf(v.lo), r |-> v.r] \in K
Shown(C, K) == {v \in flat.viols : ~Hidden(v, C, K)}
(* a comment that may be offered for the problem v *)
Here(v, c) == c.r = v.r /\ Covers(c, v) /\ Within(c, v)
Chunk(v) == [c |-> ChunkOf(v.lo), r |-> v.r]

AInit(docs) == \E t \in docs : IInit(t) /\ ck = {} /\ last = [what |-> "opened"]
IgnoreHere == \E v \in Shown(cs, ck) : \E a \in Starts : LET c == [at |-> a, r |-> v.r] IN
                 /\ Here(v, c)
                 /\ cs' = cs \cup {c} /\ last' = [what |-> "here", v |-> v, before |-> Shown(cs, ck), c |-> c, were |-> Cardinality(cs) + Cardinality(ck)]
                 /\ UNCHANGED <<prog, flat, ck>>
IgnoreChunk == \E v \in Shown(cs, ck) :
                 /\ ck' = ck \cup {Chunk(v)} /\ last' = [what |-> "chunk", v |-> v, before |-> Shown(cs, ck), c |-> Chunk(v), were |-> Cardinality(cs) + Cardinality(ck)]
                 /\ UNCHANGED <<prog, flat, cs>>
ANext == IgnoreHere \/ IgnoreChunk

(* invariants *)
Asked == last.what # "opened"
One == Asked => Cardinality(cs) + Cardinality(ck) = last.were + 1
Gone == Asked => last.v \notin Shown(cs, ck)
NothingNew == Asked => Shown(cs, ck) \subseteq last.before
OnlyThat == Asked => \A v \in last.before \ Shown(cs, ck) :
              v.r = last.v.r /\ ChunkOf(v.lo) = ChunkOf(last.v.lo) /\ (last.what = "here" => last.c.at <= v.lo /\ v.lo <= Reach(last.c))
(* every problem can be ignored, so that none is left in the end *)
CanBe == \A v \in Shown(cs, ck) : \E a \in Starts : Here(v, [at |-> a, r |-> v.r])
=============================================================================
