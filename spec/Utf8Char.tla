------------------------------ MODULE Utf8Char ------------------------------
(* Iteration over the characters of a byte string. State: position p (next     *)
(* byte), err / var / comb = number of errors, variation selectors attached    *)
(* and combining marks merged so far.                                          *)
EXTENDS Utf8

IsSelAt(bs, p)  == At(bs, p) = 239 /\ At(bs, p+1) = 184 /\ At(bs, p+2) >= 128 /\ At(bs, p+2) <= 143   \* U+FE00..FE0F
IsMarkAt(bs, p) == At(bs, p) = 227 /\ At(bs, p+1) = 130 /\ At(bs, p+2) \in {153, 154}                  \* U+3099, U+309A

\* length of the valid multi-byte character at p (0: none)
ValidLenAt(bs, p) == ValidLen(SubSeq(bs, p, IF p + 3 > Len(bs) THEN Len(bs) ELSE p + 3))

\* kana that have a voiced / semi-voiced form, and that form (Hiragana; Katakana is 96 higher)
VoicedH == {12363 + 2*i : i \in 0..11} \cup {12388, 12390, 12392}   \* か..ぢ(plain ち) step 2, つ て と
HRow == {12399 + 3*i : i \in 0..4}                                   \* は ひ ふ へ ほ
Voiced(c) == IF c \in VoicedH \cup HRow THEN c + 1 ELSE IF c = 12358 THEN 12436      \* う -> ゔ
             ELSE IF (c - 96) \in VoicedH \cup HRow THEN c + 1 ELSE IF c = 12454 THEN 12532 ELSE 0
SemiVoiced(c) == IF c \in HRow \/ (c - 96) \in HRow THEN c + 2 ELSE 0
Accented(c, bs, p) == IF c < 12353 THEN 0 ELSE IF bs[p+2] = 153 THEN Voiced(c) ELSE SemiVoiced(c)

Start == [p |-> 1, err |-> 0, var |-> 0, comb |-> 0]

\* the next character: found, its bytes, the state after it
RECURSIVE NextChar(_, _, _)
NextChar(bs, q, onlyMB) ==
  LET b == At(bs, q.p) IN
  IF b = 0 THEN [found |-> FALSE, r |-> <<>>, st |-> q]
  ELSE IF b < 128 THEN
     IF onlyMB THEN NextChar(bs, [q EXCEPT !.p = @ + 1], onlyMB)
     ELSE [found |-> TRUE, r |-> <<b>>, st |-> [q EXCEPT !.p = @ + 1]]
  ELSE LET len == ValidLenAt(bs, q.p)
           e == q.p + len
           cur == SubSeq(bs, q.p, e - 1)
       IN
     IF len = 0 THEN NextChar(bs, [q EXCEPT !.p = @ + 1, !.err = @ + 1], onlyMB)
     ELSE IF IsSelAt(bs, q.p) \/ IsMarkAt(bs, q.p) THEN NextChar(bs, [q EXCEPT !.p = e, !.err = @ + 1], onlyMB)
     ELSE IF IsSelAt(bs, e) THEN [found |-> TRUE, r |-> SubSeq(bs, q.p, e + 2), st |-> [q EXCEPT !.p = e + 3, !.var = @ + 1]]
     ELSE IF IsMarkAt(bs, e) THEN
        LET a == Accented(SeqCode(bs, q.p, len), bs, e) IN
        IF a # 0 THEN [found |-> TRUE, r |-> Encode1(a), st |-> [q EXCEPT !.p = e + 3, !.comb = @ + 1]]
        ELSE [found |-> TRUE, r |-> cur, st |-> [q EXCEPT !.p = e + 3, !.err = @ + 1]]
     ELSE [found |-> TRUE, r |-> cur, st |-> [q EXCEPT !.p = e]]

\* number of characters, not counting marks and selectors
RECURSIVE SizeFrom(_, _, _)
SizeFrom(bs, p, onlyMB) ==
  IF At(bs, p) = 0 THEN 0
  ELSE IF IsSelAt(bs, p) \/ IsMarkAt(bs, p) THEN SizeFrom(bs, p + 3, onlyMB)
  ELSE (IF IF onlyMB THEN bs[p] >= 192 ELSE ~IsCont(bs[p]) THEN 1 ELSE 0) + SizeFrom(bs, p + 1, onlyMB)
Size(bs, onlyMB) == SizeFrom(bs, 1, onlyMB)

HasSel(bs) == Len(bs) \in 5..7 /\ IsSelAt(bs, Len(bs) - 2)
NoSel(bs) == IF HasSel(bs) THEN SubSeq(bs, 1, Len(bs) - 3) ELSE bs
=============================================================================
