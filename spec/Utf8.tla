-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 decoding, encoding and validation as kanji-tools promises them        *)
(* (libs/utils Utf8). Text is a sequence of bytes 0..255; decoded text is a    *)
(* sequence of code points. The decoder is a state machine: Step consumes one  *)
(* character (or one error) and is iterated until the end or a NUL.            *)
EXTENDS Integers, Sequences

Replacement == 65533       \* U+FFFD
MaxUnicode  == 1114111     \* U+10FFFF
IsSurrogate(c) == c >= 55296 /\ c <= 57343
IsScalar(c) == c >= 0 /\ c <= MaxUnicode /\ ~IsSurrogate(c)

IsCont(b) == b >= 128 /\ b <= 191
\* sequence length announced by a lead byte; 0 for bytes that cannot lead
LeadLen(b) == IF b < 128 THEN 1 ELSE IF b < 192 THEN 0 ELSE IF b < 224 THEN 2
              ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE 0
LeadBits(b) == CASE LeadLen(b) = 1 -> b [] LeadLen(b) = 2 -> b - 192
                 [] LeadLen(b) = 3 -> b - 224 [] LeadLen(b) = 4 -> b - 240 [] OTHER -> 0
MinCode(len) == CASE len = 1 -> 0 [] len = 2 -> 128 [] len = 3 -> 2048 [] len = 4 -> 65536 [] OTHER -> 0

\* byte at position p, 0 (the terminating NUL) past the end
At(bs, p) == IF p <= Len(bs) THEN bs[p] ELSE 0

\* number of continuation bytes directly after position p, at most n
RECURSIVE Conts(_, _, _)
Conts(bs, p, n) == IF n = 0 \/ ~IsCont(At(bs, p)) THEN 0 ELSE 1 + Conts(bs, p + 1, n - 1)

\* value of the len-byte sequence starting at p (all continuation bytes present)
SeqCode(bs, p, len) ==
  CASE len = 1 -> bs[p]
    [] len = 2 -> LeadBits(bs[p]) * 64 + (bs[p+1] - 128)
    [] len = 3 -> LeadBits(bs[p]) * 4096 + (bs[p+1] - 128) * 64 + (bs[p+2] - 128)
    [] len = 4 -> LeadBits(bs[p]) * 262144 + (bs[p+1] - 128) * 4096 + (bs[p+2] - 128) * 64 + (bs[p+3] - 128)
    [] OTHER -> 0

\* one step of the decoder at position p: the code point produced and the next position
Step(bs, p) ==
  LET len == LeadLen(At(bs, p)) IN
  IF len = 0 THEN [c |-> Replacement, p |-> p + 1]
  ELSE LET have == Conts(bs, p + 1, len - 1) IN
       IF have < len - 1 THEN [c |-> Replacement, p |-> p + 1 + have]
       ELSE LET c == SeqCode(bs, p, len) IN
            [c |-> IF c >= MinCode(len) /\ IsScalar(c) THEN c ELSE Replacement, p |-> p + len]

RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(bs, p, max) ==        \* max = 0: no limit
  IF At(bs, p) = 0 THEN <<>>
  ELSE LET r == Step(bs, p) IN
       IF max = 1 THEN <<r.c>>
       ELSE <<r.c>> \o DecodeFrom(bs, r.p, IF max = 0 THEN 0 ELSE max - 1)

Decode(bs) == DecodeFrom(bs, 1, 0)
DecodeMax(bs, n) == DecodeFrom(bs, 1, n)
FirstCode(bs) == IF At(bs, 1) = 0 THEN 0 ELSE Step(bs, 1).c

Encode1(c) ==
  IF ~IsScalar(c) THEN <<239, 191, 189>>
  ELSE IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Encode(_)
Encode(cs) == IF cs = <<>> THEN <<>> ELSE Encode1(Head(cs)) \o Encode(Tail(cs))

\* -------------------------------------------------------------- validation
\* reason reported for the first character; one = exactly one character required
Validate(bs, one) ==
  LET b == At(bs, 1)
      have == Conts(bs, 2, 3)
      need == IF b >= 240 THEN 4 ELSE IF b >= 224 THEN 3 ELSE 2
  IN IF b < 128 THEN "NotMultiByte"
     ELSE IF b < 192 THEN "ContinuationByte"
     ELSE IF b >= 248 THEN IF have < 2 THEN "MissingBytes" ELSE "CharTooLong"
     ELSE IF have < need - 1 THEN "MissingBytes"
     ELSE LET c == SeqCode(bs, 1, need) IN
          IF c < MinCode(need) THEN "Overlong"
          ELSE IF ~IsScalar(c) THEN "InvalidCodePoint"
          ELSE IF one /\ At(bs, need + 1) # 0 THEN "StringTooLong"
          ELSE "Valid"

\* length in bytes of a valid first multi-byte character, else 0
ValidLen(bs) == IF Validate(bs, FALSE) = "Valid" THEN LeadLen(bs[1]) ELSE 0

\* ------------------------------------------------ independent characterisation
\* Unicode Table 3-7: well-formed byte sequences
WellFormed(q) ==
  CASE Len(q) = 1 -> q[1] >= 0 /\ q[1] <= 127
    [] Len(q) = 2 -> q[1] >= 194 /\ q[1] <= 223 /\ IsCont(q[2])
    [] Len(q) = 3 -> /\ IsCont(q[2]) /\ IsCont(q[3])
                     /\ \/ q[1] = 224 /\ q[2] >= 160
                        \/ q[1] \in {225,226,227,228,229,230,231,232,233,234,235,236,238,239}
                        \/ q[1] = 237 /\ q[2] <= 159
    [] Len(q) = 4 -> /\ IsCont(q[2]) /\ IsCont(q[3]) /\ IsCont(q[4])
                     /\ \/ q[1] = 240 /\ q[2] >= 144
                        \/ q[1] \in {241,242,243}
                        \/ q[1] = 244 /\ q[2] <= 143
    [] OTHER -> FALSE
=============================================================================
