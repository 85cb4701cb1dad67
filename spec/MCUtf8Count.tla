---------------------------- MODULE MCUtf8Count ------------------------------
(* Every file of up to MaxLines lines of up to MaxLen of the characters        *)
(* K (kanji) H (kana) O C (brackets) X:                                        *)
(*  - the chunks that are counted are the file's text: nothing lost, repeated  *)
(*    or moved                                                                 *)
(*  - furigana in one line is removed, and so is furigana that one line break  *)
(*    interrupts after the kanji or inside the brackets                        *)
(*  - nothing but bracketed kana after a kanji is removed                      *)
(* Every file is printed for replay.                                           *)
EXTENDS Utf8Count, Json
CONSTANTS MaxLines, MaxLen
K == 28450
H == 12363
X == 65
Chars == {K, H, OpenC, CloseC, X}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET q == Seqs(n - 1) IN q \cup {Append(x, c) : x \in {y \in q : Len(y) = n - 1}, c \in Chars}
L == Seqs(MaxLen)
VARIABLE lines
Init == lines = <<>>
Next == Len(lines) < MaxLines /\ \E l \in L : lines' = Append(lines, l)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
Ch == Chunks(lines, 1, <<>>, <<OpenC>>, <<CloseC>>)
RECURSIVE FoldAll(_)
FoldAll(q) == IF q = <<>> THEN <<>> ELSE Fold(q[1]) \o FoldAll(Tail(q))
Bracket(a) == FindLast(a, <<OpenC>>, Len(a)) > FindLast(a, <<CloseC>>, Len(a))
Kana(q) == \A i \in 1..Len(q) : q[i] = H
\* the two ways a line break interrupts furigana between lines a and b
Spans(a, b) ==
  \/ /\ a # <<>> /\ a[Len(a)] = K /\ ~Bracket(a) /\ b # <<>> /\ b[1] = OpenC
     /\ \E e \in 3..Len(b) : b[e] = CloseC /\ Kana(SubSeq(b, 2, e - 1))
  \/ \E o \in 2..Len(a) : /\ a[o] = OpenC /\ a[o - 1] = K /\ Kana(SubSeq(a, o + 1, Len(a)))
                          /\ \E e \in 1..Len(b) : b[e] = CloseC /\ Kana(SubSeq(b, 1, e - 1)) /\ (e > 1 \/ o < Len(a))
Cut(b) == SubSeq(b, FindAt(b, <<CloseC>>, 1) + 1, Len(b))
Upto(a) == IF a[Len(a)] = K THEN a ELSE SubSeq(a, 1, FindLast(a, <<OpenC>>, Len(a)) - 1)
SpanOk == (Len(lines) = 2 /\ Spans(lines[1], lines[2])) => FoldAll(Ch) = Fold(Upto(lines[1])) \o Fold(Cut(lines[2]))
Whole == Concat(Ch) = Concat(lines) /\ \A i \in 1..Len(Ch) : Ch[i] # <<>>
\* a removed piece follows a kanji or wide letter and is kana in brackets: putting it back gives the text
RECURSIVE Removed(_, _)
Removed(q, i) == IF i > Len(q) THEN 0 ELSE LET e == KanaEnd(q, i + 2) IN
                 IF i < Len(q) /\ IsBase(q[i]) /\ q[i + 1] = OpenC /\ e > i + 2 /\ e <= Len(q) /\ q[e] = CloseC THEN (e - i) + Removed(q, e + 1) ELSE Removed(q, i + 1)
RECURSIVE Sub(_, _)
Sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF a[1] = b[1] THEN Sub(Tail(a), Tail(b)) ELSE Sub(a, Tail(b))
Only == \A i \in 1..Len(Ch) : Len(Fold(Ch[i])) = Len(Ch[i]) - Removed(Ch[i], 1) /\ Sub(Fold(Ch[i]), Ch[i])
            /\ SelectSeq(Fold(Ch[i]), LAMBDA c : c \in {K, X}) = SelectSeq(Ch[i], LAMBDA c : c \in {K, X})
Inv == Whole /\ SpanOk /\ Only /\ PrintT("HIST " \o ToJson(lines))
=============================================================================
