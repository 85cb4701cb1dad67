----------------------------- MODULE MCConverter -----------------------------
(* Every text up to a length over an alphabet, converted by the specification:*)
(*  - kana to Rōmaji and back returns the text, in every style in which each  *)
(*    of its kana has a spelling of its own                                   *)
(*  - the other script and back returns the text, character by character      *)
(*  - Rōmaji read as hiragana and as katakana differ only in script           *)
(*  - converting what is already converted changes nothing                    *)
EXTENDS Converter
CONSTANTS Alpha, MaxLen, Script
A_kana == <<"あ", "か", "ん", "っ", "ゃ", "き", "ー", "な", "や", "を", "ち">>
A_rom == <<"a", "k", "n", "t", "c", "y", "h", "ā", " ", "'", "x">>
VARIABLE q \* positions in Alpha (TLC keeps only ASCII strings intact in states)
Init == q = <<>>
Next == Len(q) < MaxLen /\ \E c \in 1..Len(Alpha) : q' = Append(q, c)
Spec == Init /\ [][Next]_q
t == [i \in 1..Len(q) |-> Alpha[q[i]]]
Styles == {0, 1, 2, 3}
\* the morae of the text that style f writes like another kana cannot come back
RECURSIVE Own(_, _, _)
Own(cs, f, i) == IF i > Len(cs) THEN TRUE
                 ELSE LET m == Mora(cs, Script, i) IN IF m.len = 0 THEN Own(cs, f, i + 1)
                      ELSE IdxR[RomajiOf(m.x, f)] = IdxR[m.x.r] /\ Own(cs, f, i + m.len)
IsKanaText == Script # "Romaji"
Back(f) == ToKana(FromKana(t, Script, "Romaji", f), Script, f)
RoundTrip == IsKanaText => \A f \in Styles : Own(t, f, 1) => Back(f) = t
Other == IF Script = "Hiragana" THEN "Katakana" ELSE "Hiragana"
Scripts == IsKanaText => /\ FromKana(FromKana(t, Script, Other, 0), Other, Script, 0) = t
                         /\ Len(FromKana(t, Script, Other, 0)) = Len(t)
                         /\ \A f \in Styles : FromKana(FromKana(t, Script, Other, 0), Other, "Romaji", f) = FromKana(t, Script, "Romaji", f)
SameKana == ~IsKanaText => FromKana(ToKana(t, "Hiragana", 0), "Hiragana", "Katakana", 0) = ToKana(t, "Katakana", 0)
\* (a dropped separator can bring letters together that were apart)
Done == (\A i \in 1..Len(t) : t[i] \notin {"'", "-"}) => \A tg \in {"Hiragana", "Katakana", "Romaji"} : LET a == All(t, tg, 0) IN All(a, tg, 0) = a
Case == ~IsKanaText => LET up == [i \in 1..Len(t) |-> ToUpper1(t[i])]
                           low(p) == [i \in 1..Len(p) |-> ToLower1(p[i])] IN low(ToKana(up, "Hiragana", 0)) = low(ToKana(t, "Hiragana", 0))
Inv == RoundTrip /\ Scripts /\ SameKana /\ Done /\ Case
=============================================================================
