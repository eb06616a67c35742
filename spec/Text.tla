-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts as sequences of abstract characters.  A character class fixes the *)
(* number of code units in each LSP position encoding:                     *)
(*   "a","b",..  ASCII            1 byte   1 UTF-16 unit                    *)
(*   "e2"        e.g. U+00E9      2 bytes  1 UTF-16 unit                    *)
(*   "e3"        e.g. U+20AC      3 bytes  1 UTF-16 unit                    *)
(*   "e4"        e.g. U+1F30D     4 bytes  2 UTF-16 units                   *)
(*   "nl"        line feed, "cr" carriage return                            *)
(* Positions are [line, ch]; lines are separated by "nl"; ch counts code    *)
(* units of the negotiated encoding.  An *index* k \in 0..Len(t) denotes    *)
(* the character boundary after the first k characters.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Encodings == {"utf8", "utf16", "utf32"}

U8(c)  == CASE c = "e2" -> 2 [] c = "e3" -> 3 [] c = "e4" -> 4 [] OTHER -> 1
U16(c) == IF c = "e4" THEN 2 ELSE 1
Units(c, enc) == CASE enc = "utf8" -> U8(c) [] enc = "utf16" -> U16(c) [] OTHER -> 1

RECURSIVE WidthFrom(_, _, _)
WidthFrom(t, i, enc) == IF i > Len(t) THEN 0 ELSE Units(t[i], enc) + WidthFrom(t, i + 1, enc)
Width(t, enc) == WidthFrom(t, 1, enc)

Prefix(t, k) == SubSeq(t, 1, k)
Suffix(t, k) == SubSeq(t, k + 1, Len(t))

NLs(t, k) == Cardinality({i \in 1..k : t[i] = "nl"})
NumLines(t) == NLs(t, Len(t)) + 1

(* First index of line l (0-based), and the index of its end: before the    *)
(* "nl", or the end of the text.                                            *)
LineStart(t, l) == CHOOSE k \in 0..Len(t) :
                     /\ NLs(t, k) = l
                     /\ (k = 0 \/ t[k] = "nl")
LineEnd(t, l)   == CHOOSE k \in 0..Len(t) :
                     /\ NLs(t, k) = l
                     /\ (k = Len(t) \/ t[k + 1] = "nl")

(* byte offset of an index *)
ByteOf(t, k) == Width(Prefix(t, k), "utf8")
Bytes(t) == ByteOf(t, Len(t))

(* index -> position *)
PosOf(t, k, enc) ==
  LET l == NLs(t, k) IN
  [line |-> l, ch |-> Width(SubSeq(t, LineStart(t, l) + 1, k), enc)]

(* position -> the set of indices it may denote; {} means it must be refused.
   Beyond the end of the line means the end of the line (on a CRLF line the
   end may be taken before or after the "cr").                              *)
IdxOf(t, p, enc) ==
  IF p.line >= NumLines(t) THEN {}
  ELSE LET s == LineStart(t, p.line)
           e == LineEnd(t, p.line)
           w(k) == Width(SubSeq(t, s + 1, k), enc)
           exact == {k \in s..e : w(k) = p.ch}
       IN IF exact # {} THEN exact
          ELSE IF p.ch > w(e)
               THEN {e} \cup (IF e > s /\ t[e] = "cr" THEN {e - 1} ELSE {})
               ELSE {}                              \* inside a character

(* neighbouring boundaries of a position or offset that falls inside a
   character: rounding to one of them is tolerated in lookups.              *)
NearIdx(t, p, enc) ==
  IF p.line >= NumLines(t) THEN {}
  ELSE LET s == LineStart(t, p.line)
           e == LineEnd(t, p.line)
           w(k) == Width(SubSeq(t, s + 1, k), enc)
       IN {k \in s..e : \/ (k < e /\ w(k) < p.ch /\ p.ch < w(k + 1))
                        \/ (k > s /\ w(k - 1) < p.ch /\ p.ch < w(k))}

(* indices of a byte offset: the boundary, or (inside a character) its neighbours *)
AtByte(t, o)   == {k \in 0..Len(t) : ByteOf(t, k) = o}
NearByte(t, o) == {k \in 0..Len(t) : \/ (k < Len(t) /\ ByteOf(t, k) < o /\ o < ByteOf(t, k + 1))
                                     \/ (k > 0 /\ ByteOf(t, k - 1) < o /\ o < ByteOf(t, k))}
=============================================================================
