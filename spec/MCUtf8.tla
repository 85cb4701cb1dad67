-------------------------------- MODULE MCUtf8 -------------------------------
(* The decoder run as a machine over every byte string up to MaxLen over       *)
(* Bytes: position p advances by Step, out collects code points. Also checks   *)
(* the encoder on the code points in the blocks of 64 selected by Blocks.      *)
EXTENDS Utf8, TLC, FiniteSets
CONSTANTS MaxLen, BlockTop
Bytes == {0, 65, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 237, 239, 240, 244, 245, 248, 255}
VARIABLES mode, bs, p, out
vars == <<mode, bs, p, out>>

Init == \/ mode = "build" /\ bs = <<>> /\ p = 1 /\ out = <<>>
        \/ mode = "groups" /\ bs = <<>> /\ p = 1 /\ out = <<>>
\* fan out over all blocks of 64 code points (two levels, so that TLC's workers share them)
Group == mode = "groups" /\ mode' = "group" /\ bs' \in {<<i>> : i \in 0..(BlockTop \div 128)} /\ UNCHANGED <<p, out>>
Block == mode = "group" /\ mode' = "codes" /\ bs' \in {<<bs[1] * 128 + i>> : i \in 0..127} /\ UNCHANGED <<p, out>>
Grow == /\ mode = "build" /\ Len(bs) < MaxLen
        /\ \E b \in Bytes : bs' = Append(bs, b)
        /\ UNCHANGED <<mode, p, out>>
Start == mode = "build" /\ mode' = "decode" /\ UNCHANGED <<bs, p, out>>
Consume == /\ mode = "decode" /\ At(bs, p) # 0
           /\ LET r == Step(bs, p) IN p' = r.p /\ out' = Append(out, r.c)
           /\ UNCHANGED <<mode, bs>>
Next == Group \/ Block \/ Grow \/ Start \/ Consume
Spec == Init /\ [][Next]_vars /\ WF_vars(Consume)

Done == mode = "decode" /\ At(bs, p) = 0
\* the decoder never moves past the terminator and always advances
InBounds == p <= Len(bs) + 1
\* every output is a scalar value; one output per step
Scalars == \A i \in 1..Len(out) : IsScalar(out[i])
\* the machine computes Decode, and stops at the first NUL
Agrees == Done => out = Decode(bs)
Limits == mode = "build" => \A n \in 1..MaxLen :
             DecodeMax(bs, n) = SubSeq(Decode(bs), 1, IF n < Len(Decode(bs)) THEN n ELSE Len(Decode(bs)))
\* step against Table 3-7: real code point exactly for a well-formed prefix
WF37 == mode = "build" /\ bs # <<>> /\ bs[1] # 0 =>
   LET wf == {n \in 1..4 : n <= Len(bs) /\ WellFormed(SubSeq(bs, 1, n))} IN
   /\ Cardinality(wf) <= 1
   /\ wf # {} => \E n \in wf : Step(bs, 1).p = n + 1 /\ Encode1(Step(bs, 1).c) = SubSeq(bs, 1, n)
   /\ wf = {} => Step(bs, 1).c = Replacement
\* validation agrees with decoding
ValidAgrees == mode = "build" /\ bs # <<>> /\ bs[1] >= 128 =>
   /\ (Validate(bs, FALSE) = "Valid") <=> (\E n \in 2..4 : n <= Len(bs) /\ WellFormed(SubSeq(bs, 1, n)))
   /\ (Validate(bs, TRUE) = "Valid") => Validate(bs, FALSE) = "Valid"
   /\ (Validate(bs, TRUE) = "Valid") <=> (Validate(bs, FALSE) = "Valid" /\ Len(Decode(bs)) = 1)
\* replaying valid text restores it
RoundTrip == Done => (Replacement \notin {out[i] : i \in 1..Len(out)} => Encode(out) = SubSeq(bs, 1, p - 1))
\* encoder: shortest form, inverse
CodesOk == mode = "codes" =>
   \A c \in (bs[1] * 64)..(bs[1] * 64 + 63) :
      LET e == Encode1(c) IN
      /\ IsScalar(c) => WellFormed(e) /\ (c # 0 => Decode(e) = <<c>>) /\ (c > 127 => Validate(e, TRUE) = "Valid")
      /\ ~IsScalar(c) => e = <<239, 191, 189>>
Inv == InBounds /\ Scalars /\ Agrees /\ Limits /\ WF37 /\ ValidAgrees /\ RoundTrip /\ CodesOk
Termination == [](mode = "decode" => <>(At(bs, p) = 0))
=============================================================================
