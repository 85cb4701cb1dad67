-------------------------------- MODULE Text ---------------------------------
(* Operators on plain TLA+ strings (TLC concatenates strings with \o and takes *)
(* SubSeq/Len of them), used by the specifications of text processing parts.   *)
EXTENDS Integers, Sequences, TLC

Ch(t, i) == SubSeq(t, i, i)
Chars(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, i, sep) == IF i > Len(q) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o q[i] \o JoinFrom(q, i + 1, sep)
Join(q, sep) == JoinFrom(q, 1, sep)
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
From(t, i) == SubSeq(t, i, Len(t))
\* least index >= i at which p occurs in t, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(t, p, i) == IF i + Len(p) - 1 > Len(t) THEN 0 ELSE IF SubSeq(t, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(t, p, i + 1)
Find(t, p) == FindFrom(t, p, 1)
Has(t, p) == Find(t, p) > 0
\* pieces of t between occurrences of the one character string d: always at least one piece
RECURSIVE Split(_, _)
Split(t, d) == LET i == Find(t, d) IN IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split(From(t, i + 1), d)
\* like repeated getline: the piece after the last delimiter counts only if it is not empty
Pieces(t, d) == LET q == Split(t, d) IN IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Lines(t) == Pieces(t, "\n")
RECURSIVE Times(_, _)
Times(t, n) == IF n <= 0 THEN "" ELSE t \o Times(t, n - 1)
RECURSIVE Replace(_, _, _)
Replace(t, a, b) == LET i == Find(t, a) IN IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1) \o b \o Replace(From(t, i + Len(a)), a, b)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* code of a printable ASCII character (0 for others), and the character of a code
PrintableSet == {Ch(Ascii, i) : i \in 1..95}
CodeOf == [c \in PrintableSet |-> 31 + (CHOOSE i \in 1..95 : Ch(Ascii, i) = c)]
Ord(c) == IF c \in PrintableSet THEN CodeOf[c] ELSE 0
Chr(n) == Ch(Ascii, n - 31)
Printable(c) == c \in PrintableSet
Digits == "0123456789"
IsDigit(c) == Ord(c) \in 48..57
IsUpperC(c) == Ord(c) \in 65..90
IsLowerC(c) == Ord(c) \in 97..122
ToLower1(c) == IF IsUpperC(c) THEN Chr(Ord(c) + 32) ELSE c
ToUpper1(c) == IF IsLowerC(c) THEN Chr(Ord(c) - 32) ELSE c
ToLowerT(t) == Join([i \in 1..Len(t) |-> ToLower1(Ch(t, i))], "")
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(Ch(t, i))
RECURSIVE NumOf(_)
NumOf(t) == IF t = "" THEN 0 ELSE 10 * NumOf(SubSeq(t, 1, Len(t) - 1)) + Ord(Ch(t, Len(t))) - 48
\* digits without leading zeroes ("0" for zero), and order of such numbers
RECURSIVE Canon(_)
Canon(t) == IF Len(t) > 1 /\ Ch(t, 1) = "0" THEN Canon(From(t, 2)) ELSE t
\* lexicographic order of printable ASCII texts
RECURSIVE TextLess(_, _)
TextLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                  ELSE LET x == Ord(Ch(a, 1))
                           y == Ord(Ch(b, 1)) IN IF x # y THEN x < y ELSE TextLess(From(a, 2), From(b, 2))
NumLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ TextLess(a, b))
\* a set of texts in order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : TextLess(x, y) IN <<m>> \o Sorted(S \ {m})
HexVal(c) == IF IsDigit(c) THEN Ord(c) - 48 ELSE Ord(c) - 55
RECURSIVE HexOf(_)
HexOf(t) == IF t = "" THEN 0 ELSE 16 * HexOf(SubSeq(t, 1, Len(t) - 1)) + HexVal(Ch(t, Len(t)))
=============================================================================
