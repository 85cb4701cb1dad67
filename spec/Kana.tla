-------------------------------- MODULE Kana ---------------------------------
(* What the kana tables answer: lookups by any form, the romaji of a kana per *)
(* style, links between plain, voiced and semi-voiced kana, iteration marks.  *)
(* Flags: Hepburn = 1, Kunrei = 2, NoProlongMark = 4, RemoveSpaces = 8.       *)
EXTENDS Text, KanaTab, FiniteSets
N0 == Len(Table)
SpellingsOf(x) == {x.r} \cup {x.var[i] : i \in 1..Len(x.var)}
KeysH == {Table[i].h : i \in 1..N0}
KeysK == {Table[i].k : i \in 1..N0}
KeysR == UNION {SpellingsOf(Table[i]) : i \in 1..N0}
IdxH == [t \in KeysH |-> CHOOSE i \in 1..N0 : Table[i].h = t]
IdxK == [t \in KeysK |-> CHOOSE i \in 1..N0 : Table[i].k = t]
IdxR == [t \in KeysR |-> CHOOSE i \in 1..N0 : t \in SpellingsOf(Table[i])]
Map(type) == CASE type = "Hiragana" -> IdxH [] type = "Katakana" -> IdxK [] OTHER -> IdxR
Keys(type) == CASE type = "Hiragana" -> KeysH [] type = "Katakana" -> KeysK [] OTHER -> KeysR
Known(type, t) == t \in Keys(type)
ByName(x) == Table[IdxR[x]]
Lookup(type, t) == Table[Map(type)[t]]
FlagOn(flags, b) == (flags \div b) % 2 = 1
Hep(flags) == FlagOn(flags, 1)
Kun(flags) == FlagOn(flags, 2)
RomajiOf(x, flags) == IF Hep(flags) /\ x.hep # "" THEN x.hep
                      ELSE IF Kun(flags) /\ x.vk THEN x.var[1]
                      ELSE IF Kun(flags) /\ x.kun # "" THEN x.kun ELSE x.r
\* the consonant is doubled, written t before ch
Doubled(x, flags) == LET t == RomajiOf(x, flags) IN (IF Ch(t, 1) = "c" THEN "t" ELSE Ch(t, 1)) \o t
Form(x, type, flags) == CASE type = "Hiragana" -> x.h [] type = "Katakana" -> x.k [] OTHER -> RomajiOf(x, flags)
FormOf(name, type) == IF name = "" THEN "" ELSE Form(ByName(name), type, 0)
IsSmall(x) == Ch(x.r, 1) = "l"
IsVoiced(x) == IF x.plain = "" THEN Ch(x.r, 1) = "v" ELSE ByName(x.plain).dak = x.r
IsSemiVoiced(x) == x.plain # "" /\ ByName(x.plain).han = x.r
\* every answer about one kana
Facts(x) == [r |-> x.r, h |-> x.h, k |-> x.k, var |-> x.var, vk |-> x.vk,
             rom |-> [f \in 1..16 |-> RomajiOf(x, f - 1)], dbl |-> [f \in 1..16 |-> Doubled(x, f - 1)],
             get |-> [f \in 1..16 |-> <<Form(x, "Hiragana", f - 1), Form(x, "Katakana", f - 1), Form(x, "Romaji", f - 1)>>],
             links |-> <<x.dak, x.han, x.plain>>,
             dak |-> <<FormOf(x.dak, "Hiragana"), FormOf(x.dak, "Katakana"), FormOf(x.dak, "Romaji")>>,
             han |-> <<FormOf(x.han, "Hiragana"), FormOf(x.han, "Katakana"), FormOf(x.han, "Romaji")>>,
             is |-> <<IsSmall(x), Len(x.h) = 1, Len(x.h) = 2, IsVoiced(x), IsSemiVoiced(x)>>]
FindMark(t, han) == LET of(x) == IF han THEN x.han ELSE x.dak IN
                    IF Known("Hiragana", t) THEN FormOf(of(Lookup("Hiragana", t)), "Hiragana")
                    ELSE IF Known("Katakana", t) THEN FormOf(of(Lookup("Katakana", t)), "Katakana") ELSE ""
Iteration(type, t) == CASE type = "Hiragana" /\ t = "ゝ" -> "plain" [] type = "Hiragana" /\ t = "ゞ" -> "accented"
                        [] type = "Katakana" /\ t = "ヽ" -> "plain" [] type = "Katakana" /\ t = "ヾ" -> "accented" [] OTHER -> ""
\* an iteration mark repeats the previous kana (name, "" = none), with or without its voicing
Repeated(mark, target, flags, prev) ==
  CASE target = "Hiragana" -> (IF mark = "plain" THEN "ゝ" ELSE "ゞ") [] target = "Katakana" -> (IF mark = "plain" THEN "ヽ" ELSE "ヾ")
    [] OTHER -> IF prev = "" THEN "" ELSE
                LET p == ByName(prev)
                    other == IF mark = "plain" THEN p.plain ELSE p.dak IN RomajiOf(IF other # "" THEN ByName(other) ELSE p, flags)
=============================================================================
