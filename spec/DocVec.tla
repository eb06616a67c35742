------------------------------ MODULE DocVec ------------------------------
(***************************************************************************)
(* Generates, from the DocSync specification, every notification over small *)
(* texts together with the texts the server may hold afterwards.            *)
(***************************************************************************)
EXTENDS DocSync, Json, SequencesExt

VARIABLE v
vvars == <<vars, v>>

Vec(t, en, cs) == [k |-> "apply", enc |-> en, text |-> t, cs |-> cs,
                   exp |-> SetToSeq(ApplyBatch(t, cs, en))]

(* the names under which LSP negotiates the encodings *)
Wire(en) == CASE en = "utf8" -> "utf-8" [] en = "utf16" -> "utf-16" [] OTHER -> "utf-32"

Lookups(t, en) ==
  [k |-> "look", enc |-> en, text |-> t, wire |-> Wire(en),
   pos |-> SetToSeq({ [p |-> p,
             exact |-> SetToSeq({ByteOf(t, i) : i \in IdxOf(t, p, en)}),
             near |-> SetToSeq({ByteOf(t, i) : i \in NearIdx(t, p, en)})]
             : p \in [line : 0..(NumLines(t) + 1), ch : 0..(Width(t, "utf8") + 2)] }),
   off |-> SetToSeq({ [o |-> o,
             exact |-> SetToSeq({PosOf(t, i, en) : i \in AtByte(t, o)}),
             near |-> SetToSeq({PosOf(t, i, en) : i \in NearByte(t, o)})]
             : o \in 0..(Bytes(t) + 2) })]

VInit == /\ Init /\ enc = "utf8"
         /\ \E t \in TextsUpTo(MaxInit), en \in Encs : v = <<t, en>>
VSpec == VInit /\ [][UNCHANGED vvars]_vvars

EmitApply ==
  LET t == v[1] en == v[2] IN
  /\ \A b \in Batches(t, en, MaxBatch) :
        PrintT(ToJson(Vec(t, en, [i \in 1..Len(b) |-> Strip(b[i])])))
  /\ \A c \in BadChanges(t, en) :
        /\ PrintT(ToJson(Vec(t, en, <<c>>)))
        /\ LET g == [full |-> FALSE, s |-> [line |-> 0, ch |-> 0], e |-> [line |-> 0, ch |-> 0], text |-> <<"x">>]
           IN PrintT(ToJson(Vec(t, en, <<g, c>>)))
EmitLook == PrintT(ToJson(Lookups(v[1], v[2])))
=============================================================================
