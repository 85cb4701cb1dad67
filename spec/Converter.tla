------------------------------ MODULE Converter ------------------------------
(* Conversion between hiragana, katakana and Rōmaji. A text is a sequence of  *)
(* one-character strings. Kana are read left to right as morae (a digraph     *)
(* when the pair is a kana, doubled by a preceding small tsu); Rōmaji is read *)
(* as the romaji that begins at each point. A converter is its target and     *)
(* flags: nothing else is remembered between conversions.                     *)
EXTENDS Kana
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat(Tail(q))
NarrowD == " !\"#$%&()*+,./0123456789:;<=>?@[\\]^_`{|}~"
WideD == "　！”＃＄％＆（）＊＋、。・０１２３４５６７８９：；＜＝＞？＠「￥」＾＿｀『｜』〜"
NarrowSet == {Ch(NarrowD, i) : i \in 1..Len(NarrowD)}
WideSet == {Ch(WideD, i) : i \in 1..Len(WideD)}
ToWide == [c \in NarrowSet |-> Ch(WideD, Find(NarrowD, c))]
ToNarrow == [c \in WideSet |-> Ch(NarrowD, Find(WideD, c))]
Vowels == "aiueo"
MacronSeq == "āīūēō"
Repeatable == {Ch("kstchfmyrwgzjdbpqv", i) : i \in 1..18}
NoProlong(flags) == FlagOn(flags, 4)
NoSpaces(flags) == FlagOn(flags, 8)
FlagText(flags) == IF flags = 0 THEN "None"
  ELSE Join(SelectSeq([i \in 1..4 |-> IF FlagOn(flags, <<1, 2, 4, 8>>[i]) THEN <<"Hepburn", "Kunrei", "NoProlongMark", "RemoveSpaces">>[i] ELSE ""], LAMBDA t : t # ""), "|")

\* ---- from kana
SmallSet == [Hiragana |-> {"ぁ", "ぃ", "ぅ", "ぇ", "ぉ", "ゃ", "ゅ", "ょ", "ゎ"}, Katakana |-> {"ァ", "ィ", "ゥ", "ェ", "ォ", "ャ", "ュ", "ョ", "ヮ"}]
Tsu == [Hiragana |-> "っ", Katakana |-> "ッ"]
KanaN == [Hiragana |-> "ん", Katakana |-> "ン"]
\* the mora at i: the kana and how many characters it takes (0 if cs[i] is no kana of the script)
Mora(cs, src, i) ==
  IF i > Len(cs) \/ ~Known(src, cs[i]) THEN [len |-> 0]
  ELSE IF i < Len(cs) /\ cs[i + 1] \in SmallSet[src] /\ Known(src, cs[i] \o cs[i + 1]) THEN [len |-> 2, x |-> Lookup(src, cs[i] \o cs[i + 1])]
  ELSE [len |-> 1, x |-> Lookup(src, cs[i])]
Unit(cs, src, target, flags, i) ==
  LET m == Mora(cs, src, i) IN
  IF m.len = 0 THEN [len |-> 0]
  ELSE LET m2 == Mora(cs, src, i + 1) IN
       IF target = "Romaji" /\ cs[i] = Tsu[src] /\ m2.len > 0 /\ cs[i + 1] # Tsu[src] /\ Ch(RomajiOf(m2.x, flags), 1) \in Repeatable
       THEN [len |-> 1 + m2.len, x |-> m2.x, t |-> Doubled(m2.x, flags)]
       ELSE [len |-> m.len, x |-> m.x, t |-> Form(m.x, target, flags)]
\* a prolong mark after Rōmaji: a macron on the vowel, kept as it is after ん
Prolonged(t, target) == IF target = "Romaji" /\ Has(Vowels, Ch(t, Len(t))) THEN SubSeq(t, 1, Len(t) - 1) \o Ch(MacronSeq, Find(Vowels, Ch(t, Len(t)))) ELSE t \o "ー"
NeedsApostrophe(cs, src, flags, i) == i <= Len(cs) /\ Known(src, cs[i]) /\ Ch(RomajiOf(Lookup(src, cs[i]), flags), 1) \in {"a", "i", "u", "e", "o", "y"}
RECURSIVE FromKanaAt(_, _, _, _, _, _)
FromKanaAt(cs, src, target, flags, i, prev) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET c == cs[i]
           it == Iteration(src, c)
           u == Unit(cs, src, target, flags, i)
       IN IF it # "" THEN Chars(Repeated(it, target, flags, prev)) \o FromKanaAt(cs, src, target, flags, i + 1, prev)
          ELSE IF u.len = 0 THEN (IF target = "Romaji" /\ c \in WideSet THEN <<ToNarrow[c]>> ELSE <<c>>) \o FromKanaAt(cs, src, target, flags, i + 1, prev)
          ELSE LET nx == i + u.len IN
               IF nx <= Len(cs) /\ cs[nx] = "ー" THEN Chars(Prolonged(u.t, target)) \o FromKanaAt(cs, src, target, flags, nx + 1, "")
               ELSE Chars(u.t) \o (IF target = "Romaji" /\ c = KanaN[src] /\ NeedsApostrophe(cs, src, flags, nx) THEN <<"'">> ELSE <<>>)
                      \o FromKanaAt(cs, src, target, flags, nx, u.x.r)
FromKana(cs, src, target, flags) == FromKanaAt(cs, src, target, flags, 1, "")

\* ---- to kana
Single(c) == Printable(c) \/ c \in {"\t", "\n", "\r", "\f"}
IsSep(c) == c \in NarrowSet \/ c = "'" \/ c = "-"
MacronSet == {Ch(MacronSeq, i) : i \in 1..5}
IsMacron(c) == c \in MacronSet
BaseVowel == [c \in MacronSet |-> Ch(Vowels, Find(MacronSeq, c))]
IsLetter(c) == (Single(c) /\ ~IsSep(c)) \/ IsMacron(c)
Lower(c) == IF IsMacron(c) THEN BaseVowel[c] ELSE ToLower1(c)
LetterAt(cs, i) == i <= Len(cs) /\ IsLetter(cs[i])
\* length of the romaji that begins at i, 0 if none (n alone is treated on its own); a macron can only be its last letter
KeyLen(cs, i) ==
  LET a == Lower(cs[i]) IN
  IF a # "n" /\ a \in KeysR THEN 1
  ELSE IF ~LetterAt(cs, i + 1) THEN 0
  ELSE LET b == a \o Lower(cs[i + 1]) IN IF b \in KeysR THEN 2 ELSE IF IsMacron(cs[i + 1]) \/ ~LetterAt(cs, i + 2) THEN 0
       ELSE IF (b \o Lower(cs[i + 2])) \in KeysR THEN 3 ELSE 0
KeyText(cs, i, n) == LET a == Lower(cs[i]) IN IF n = 1 THEN a ELSE IF n = 2 THEN a \o Lower(cs[i + 1]) ELSE a \o Lower(cs[i + 1]) \o Lower(cs[i + 2])
DoublesAt(cs, i) == /\ LetterAt(cs, i + 1) /\ LetterAt(cs, i + 2) /\ ~IsMacron(cs[i + 1])
                    /\ Lower(cs[i + 2]) # "n" \* an n begins a kana of its own
                    /\ Lower(cs[i]) \in Repeatable
                    /\ (Lower(cs[i + 1]) = Lower(cs[i]) \/ (Lower(cs[i]) = "t" /\ Lower(cs[i + 1]) = "c"))
HVowels == "あいうえお"
RECURSIVE ToKanaAt(_, _, _, _, _)
ToKanaAt(cs, target, flags, i, raw) ==
  IF i > Len(cs) THEN <<>>
  ELSE LET c == cs[i] IN
    IF c \in {"'", "-"} \/ (c = " " /\ NoSpaces(flags)) THEN ToKanaAt(cs, target, flags, i + 1, FALSE)
    ELSE IF c \in NarrowSet THEN <<ToWide[c]>> \o ToKanaAt(cs, target, flags, i + 1, FALSE)
    ELSE IF ~IsLetter(c) THEN <<c>> \o ToKanaAt(cs, target, flags, i + 1, FALSE)
    ELSE LET n == KeyLen(cs, i) IN
      IF n > 0 THEN
        LET last == cs[i + n - 1]
            mark == IF ~IsMacron(last) \/ (n = 1 /\ raw) THEN <<>>
                    ELSE IF target = "Hiragana" /\ NoProlong(flags) THEN <<Ch(HVowels, Find(MacronSeq, last))>> ELSE <<"ー">>
        IN Chars(Form(Lookup("Romaji", KeyText(cs, i, n)), target, 0)) \o mark \o ToKanaAt(cs, target, flags, i + n, FALSE)
      ELSE IF Lower(c) = "n" THEN <<KanaN[target]>> \o ToKanaAt(cs, target, flags, i + 1, FALSE)
      ELSE IF DoublesAt(cs, i) THEN <<Tsu[target]>> \o ToKanaAt(cs, target, flags, i + 1, FALSE)
      ELSE <<c>> \o ToKanaAt(cs, target, flags, i + 1, TRUE)
ToKana(cs, target, flags) == ToKanaAt(cs, target, flags, 1, FALSE)

\* ---- conversions
Pass(src, cs, target, flags) == IF src = target THEN cs ELSE IF src = "Romaji" THEN ToKana(cs, target, flags) ELSE FromKana(cs, src, target, flags)
All(cs, target, flags) == Pass("Romaji", Pass("Katakana", Pass("Hiragana", cs, target, flags), target, flags), target, flags)
Convert(src, cs, target, flags) == IF src = "" THEN All(cs, target, flags) ELSE Pass(src, cs, target, flags)
=============================================================================
