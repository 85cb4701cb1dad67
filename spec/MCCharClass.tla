----------------------------- MODULE MCCharClass -----------------------------
(* Bounded model: a string is typed one character at a time from an alphabet    *)
(* with characters of every class, marks, ASCII and broken bytes; the relations *)
(* between the predicates are invariants.                                       *)
EXTENDS CharClass
CONSTANT MaxChars
VARIABLE bs, n
Alphabet == {Encode1(c) : c \in {65, 12354, 12450, 12784, 13312, 19968, 40959, 63744, 131072, 11904, 201551, 12289, 12288, 65533, 8451, 199, 65313,
                                 12441, 12442, 65024, 65039, 65040, 12592}} \cup {<<227>>, <<128>>, <<227, 129>>, <<0>>}
Init == bs = <<>> /\ n = 0
Next == n < MaxChars /\ \E a \in Alphabet : bs' = bs \o a /\ n' = n + 1
Spec == Init /\ [][Next]_<<bs, n>>
d == Decode(bs)
Base == {"hiragana", "katakana", "common", "rare", "punct", "symbol", "letter"}
Inv ==
  /\ \A c \in Classes : /\ One(c, bs) => First(c, bs)
                        /\ One(c, bs) => All(c, bs)
                        /\ (All(c, bs) /\ Len(d) > 0 /\ d[1] > 127 /\ Len(bs) > 1) => First(c, bs)
                        /\ (All(c, bs) /\ Len(d) = 1 /\ Len(bs) \in 2..8) => One(c, bs)
                        /\ First(c, bs) => First("recognized", bs)
                        /\ All(c, bs) => All("recognized", bs)
  /\ First("kana", bs) <=> (First("hiragana", bs) \/ First("katakana", bs))
  /\ First("kanji", bs) <=> (First("common", bs) \/ First("rare", bs))
  /\ \A x, y \in Base : x # y => ~(First(x, bs) /\ First(y, bs))
  /\ \A x, y \in Base : x # y => \A r \in RangeTab[x], q \in RangeTab[y] : r[2] < q[1] \/ q[2] < r[1]
  /\ IsPunct(bs, FALSE, TRUE) => IsPunct(bs, TRUE, TRUE)
  /\ All("kana", <<>>) /\ ~One("kana", <<>>)
=============================================================================
