------------------------------- MODULE Strings -------------------------------
(* String helpers. Text = sequence of bytes; numbers are given by their bits   *)
(* (most significant first) because TLC integers are 32 bit.                   *)
EXTENDS Utf8, TLC

Rep(b, n) == [i \in 1..n |-> b]
Brackets(t, x) == CASE t = "Curly" -> <<123>> \o x \o <<125>> [] t = "Round" -> <<40>> \o x \o <<41>>
                    [] t = "Square" -> <<91>> \o x \o <<93>> [] OTHER -> x
Zeroes(x, n) == IF Len(x) < n THEN Rep(48, n - Len(x)) \o x ELSE IF x = <<>> THEN <<48>> ELSE x

RECURSIVE Strip(_)
Strip(bits) == IF bits = <<>> \/ Head(bits) = 1 THEN bits ELSE Strip(Tail(bits))
\* bits of the type -> binary text; min = 0: full width of the type
Binary(bits, min) == LET x == Strip(bits) IN Zeroes([i \in 1..Len(x) |-> 48 + x[i]], IF min = 0 THEN Len(bits) ELSE min)

Digit(v, upper) == IF v < 10 THEN 48 + v ELSE (IF upper THEN 65 ELSE 97) + v - 10
Nibbles(bits) == [i \in 1..(Len(bits) \div 4) |-> 8 * bits[4*i-3] + 4 * bits[4*i-2] + 2 * bits[4*i-1] + bits[4*i]]
RECURSIVE StripN(_)
StripN(x) == IF x = <<>> \/ Head(x) # 0 THEN x ELSE StripN(Tail(x))
Hex(bits, upper, min) == LET x == StripN(Nibbles(bits)) IN
   Zeroes([i \in 1..Len(x) |-> Digit(x[i], upper)], IF min = 0 THEN Len(bits) \div 4 ELSE min)

\* code point -> U+ style digits: upper case, at least 4
RECURSIVE HexDigitsOf(_)
HexDigitsOf(c) == IF c = 0 THEN <<>> ELSE HexDigitsOf(c \div 16) \o <<Digit(c % 16, TRUE)>>
UnicodeOne(c) == Zeroes(HexDigitsOf(c), 4)
RECURSIVE UnicodeAll(_)
UnicodeAll(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN UnicodeOne(cs[1])
                  ELSE UnicodeOne(cs[1]) \o <<32>> \o UnicodeAll(Tail(cs))

IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
Lower1(b) == IF IsUpper(b) THEN b + 32 ELSE b
Upper1(b) == IF IsLower(b) THEN b - 32 ELSE b
Lower(x) == [i \in 1..Len(x) |-> Lower1(x[i])]
Upper(x) == [i \in 1..Len(x) |-> Upper1(x[i])]
FirstLower(x) == IF x = <<>> THEN x ELSE <<Lower1(x[1])>> \o Tail(x)
FirstUpper(x) == IF x = <<>> THEN x ELSE <<Upper1(x[1])>> \o Tail(x)
Single(c) == c < 128
Singles(x) == [one |-> Len(x) = 1 /\ Single(x[1]), first |-> Len(x) > 0 /\ Single(x[1]),
               all |-> \A i \in 1..Len(x) : Single(x[i]), any |-> \E i \in 1..Len(x) : Single(x[i])]

\* conversions to char; x is the value (capped to 31 bits), xs its decimal text, bits its bits
OutOfRange(what, t) == [E |-> "RangeError", m |-> "toChar (" \o what \o "): '" \o t \o "' out of range"]
SignedChar(b) == IF b < 128 THEN b ELSE b - 256
ToCharInt(x, xs, neg) ==
  IF neg /\ x < -128 THEN OutOfRange("int", xs)
  ELSE IF ~neg /\ x < 0 THEN OutOfRange("positive int", xs)
  ELSE IF x > 255 THEN OutOfRange("int", xs)
  ELSE [v |-> SignedChar((x + 256) % 256)]
ToCharUnsigned(type, x, xs) == IF x > 255 THEN OutOfRange(type, xs) ELSE [v |-> SignedChar(x)]
=============================================================================
