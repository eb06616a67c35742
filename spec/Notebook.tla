------------------------------ MODULE Notebook ------------------------------
(***************************************************************************)
(* R Markdown / Quarto documents as sequences of lines, read one at a time. *)
(* A line is [k, n]: k its shape, n the number of backticks (or tildes).    *)
(*   r, ropt, rbr   an R chunk header ({r}, {R label, opt}, ... )           *)
(*   other          the header of another engine ({python}, {rust}, ...)    *)
(*   disp cls gap noend mid tilde tfence   lines that open nothing          *)
(*   fence          backticks alone on their line                           *)
(*   fencex text blank   anything else                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES doc,     \* the lines read so far
          open,    \* the chunk being read: [n, isR, from], or Outside
          chunks   \* the R chunks found: sequence of <<first line, last line>>
CONSTANTS Outside
nvars == <<doc, open, chunks>>

OpensR(x) == x.k \in {"r", "ropt", "rbr"} /\ x.n >= 3
OpensOther(x) == x.k = "other" /\ x.n >= 3
Closes(x, o) == x.k = "fence" /\ x.n = o.n

NInit == doc = <<>> /\ open = Outside /\ chunks = <<>>
Read(x) ==
  /\ doc' = Append(doc, x)
  /\ LET i == Len(doc) + 1 IN
     IF open = Outside
     THEN /\ chunks' = chunks
          /\ open' = IF OpensR(x) \/ OpensOther(x) THEN [n |-> x.n, isR |-> OpensR(x), from |-> i + 1] ELSE Outside
     ELSE IF Closes(x, open)
     THEN /\ chunks' = IF open.isR THEN Append(chunks, <<open.from, i - 1>>) ELSE chunks
          /\ open' = Outside
     ELSE UNCHANGED <<open, chunks>>

(* ---- what the chunks are, declaratively ---- *)
(* [a, b] is a chunk: opened on line a-1, closed on line b+1, no closing in between *)
IsBlock(a, b) == /\ a >= 2 /\ b + 1 <= Len(doc) /\ a <= b + 1
                 /\ (OpensR(doc[a - 1]) \/ OpensOther(doc[a - 1]))
                 /\ Closes(doc[b + 1], doc[a - 1])
                 /\ \A j \in a..b : ~Closes(doc[j], doc[a - 1])
ChunksAreBlocks == \A i \in 1..Len(chunks) : IsBlock(chunks[i][1], chunks[i][2]) /\ OpensR(doc[chunks[i][1] - 1])
Ordered == \A i \in 1..Len(chunks) - 1 : chunks[i][2] + 1 < chunks[i + 1][1] - 1
(* an R header outside every block starts a chunk as soon as its fence is closed *)
Inside(h) == \E a \in 2..Len(doc) : /\ a - 1 < h /\ (OpensR(doc[a - 1]) \/ OpensOther(doc[a - 1]))
                                     /\ \A j \in a..h - 1 : ~Closes(doc[j], doc[a - 1])
NoneMissed == \A h \in 1..Len(doc) :
  (OpensR(doc[h]) /\ ~Inside(h) /\ \E c \in h + 1..Len(doc) : Closes(doc[c], doc[h]))
    => \E i \in 1..Len(chunks) : chunks[i][1] = h + 1
=============================================================================
