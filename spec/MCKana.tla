------------------------------- MODULE MCKana --------------------------------
(* Visits every kana of the table and checks the structure of written         *)
(* Japanese: katakana is hiragana character by character, no two kana share a *)
(* form, the vowel of the romaji is that of the kana's column, voiced and     *)
(* semi-voiced links connect exactly the kana that differ by the mark, small  *)
(* kana are the small letters, styles only ever name another kana's romaji or *)
(* an accepted spelling, and a doubled consonant is typed as spelled.         *)
EXTENDS Kana
HSeq == "ぁあぃいぅうぇえぉおかがきぎくぐけげこごさざしじすずせぜそぞただちぢっつづてでとどなにぬねのはばぱひびぴふぶぷへべぺほぼぽまみむめもゃやゅゆょよらりるれろゎわゐゑをんゔゕゖ"
KSeq == "ァアィイゥウェエォオカガキギクグケゲコゴサザシジスズセゼソゾタダチヂッツヅテデトドナニヌネノハバパヒビピフブプヘベペホボポマミムメモャヤュユョヨラリルレロヮワヰヱヲンヴヵヶ"
ToK(c) == Ch(KSeq, CHOOSE i \in 1..Len(HSeq) : Ch(HSeq, i) = c)
PlainSeq == "かきくけこさしすせそたちつてとはひふへほう"
VoicedSeq == "がぎぐげござじずぜぞだぢづでどばびぶべぼゔ"
SemiP == "はひふへほ"
SemiS == "ぱぴぷぺぽ"
SmallSeq == "ぁぃぅぇぉゕゖゃゅょゎっ"
BigSeq == "あいうえおかけやゆよわつ"
Cols == <<[v |-> "a", t |-> "ぁあかがさざただなはばぱまゃやらゎわゕ"], [v |-> "i", t |-> "ぃいきぎしじちぢにひびぴみりゐ"],
          [v |-> "u", t |-> "ぅうくぐすずっつづぬふぶぷむゅゆるゔ"], [v |-> "e", t |-> "ぇえけげせぜてでねへべぺめれゑゖ"],
          [v |-> "o", t |-> "ぉおこごそぞとどのほぼぽもょよろを"]>>
VowelOf(c) == Cols[CHOOSE j \in 1..5 : Has(Cols[j].t, c)].v
SwapFirst(t, from, to) == IF Has(from, Ch(t, 1)) THEN Ch(to, Find(from, Ch(t, 1))) \o From(t, 2) ELSE ""
NameOfH(t) == IF t # "" /\ t \in KeysH THEN Table[IdxH[t]].r ELSE ""
VARIABLE n
Init == n = 1
Next == n < N0 /\ n' = n + 1
Spec == Init /\ [][Next]_n
x == Table[n]
Letters(t) == \A i \in 1..Len(t) : IsLowerC(Ch(t, i))
Last(t) == Ch(t, Len(t))
Shape == /\ Len(x.h) \in 1..2 /\ Len(x.k) = Len(x.h) /\ \A i \in 1..Len(x.h) : Ch(x.k, i) = ToK(Ch(x.h, i))
         /\ \A t \in SpellingsOf(x) \cup ({x.hep, x.kun} \ {""}) : Letters(t) /\ Len(t) \in 1..3
         /\ Len(x.h) = 2 => Has("ぁぃぅぇぉゃゅょゎ", Ch(x.h, 2)) /\ ~Has(SmallSeq, Ch(x.h, 1))
Vowel == IF x.r = "n" THEN x.h = "ん" ELSE \A t \in SpellingsOf(x) \cup ({x.hep, x.kun} \ {""}) : Last(t) = VowelOf(Last(x.h))
Unique == \A i \in 1..N0 : i # n => /\ Table[i].h # x.h /\ Table[i].k # x.k
                                    /\ SpellingsOf(Table[i]) \cap SpellingsOf(x) = {}
Covers == n = 1 => \A i \in 1..Len(HSeq) : Ch(HSeq, i) \in KeysH /\ Ch(KSeq, i) \in KeysK
Voicing == /\ x.dak = NameOfH(SwapFirst(x.h, PlainSeq, VoicedSeq))
           /\ x.han = NameOfH(SwapFirst(x.h, SemiP, SemiS))
           /\ x.plain # "" <=> \E i \in 1..N0 : Table[i].dak = x.r \/ Table[i].han = x.r
           /\ x.plain # "" => ByName(x.plain).dak = x.r \/ ByName(x.plain).han = x.r
           /\ IsVoiced(x) <=> Has(VoicedSeq, Ch(x.h, 1))
           /\ IsSemiVoiced(x) <=> Has(SemiS, Ch(x.h, 1))
Small == IsSmall(x) <=> Len(x.h) = 1 /\ Has(SmallSeq, x.h)
SmallName == IsSmall(x) => LET b == ByName(NameOfH(Ch(BigSeq, Find(SmallSeq, x.h)))) IN
               \E t \in SpellingsOf(b) : x.r = "l" \o t /\ \E i \in 1..Len(x.var) : x.var[i] = "x" \o t
\* a Hepburn reading is always the spelling of another kana (the reason it is not the unique romaji)
Styles == /\ x.hep # "" => x.hep # x.r /\ \E i \in 1..N0 : i # n /\ Table[i].r = x.hep
          /\ x.kun # "" => x.kun # x.r /\ x.kun \in KeysR /\ IdxR[x.kun] # n
          /\ x.vk => x.var # <<>> /\ x.kun = ""
          /\ \A f \in 0..15 : RomajiOf(x, f) = RomajiOf(x, f % 4)
Doubling == \A f \in 0..3 : Len(Doubled(x, f)) = Len(RomajiOf(x, f)) + 1 /\ From(Doubled(x, f), 2) = RomajiOf(x, f)
Inv == Shape /\ Vowel /\ Unique /\ Covers /\ Voicing /\ Small /\ SmallName /\ Styles /\ Doubling
=============================================================================
