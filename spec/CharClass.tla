------------------------------ MODULE CharClass ------------------------------
(* Character classes by Unicode block, and the three predicate forms built on  *)
(* them (one character / first character / every character).                   *)
EXTENDS Utf8, FiniteSets, TLC

\* <<first, last>> of every block, as documented
Blocks == [
  hiragana |-> <<<<12352, 12447>>>>,                                    \* 3040-309F
  katakana |-> <<<<12448, 12543>>, <<12784, 12799>>>>,                  \* 30A0-30FF 31F0-31FF
  common   |-> <<<<13312, 19903>>, <<19968, 40959>>, <<63744, 64255>>, <<131072, 173791>>>>,
  rare     |-> <<<<11904, 12031>>, <<173824, 191471>>, <<194560, 195103>>, <<196608, 201551>>>>,
  punct    |-> <<<<8192, 8303>>, <<12288, 12351>>, <<65520, 65535>>>>,
  symbol   |-> <<<<8448, 8527>>, <<8592, 8703>>, <<8704, 8959>>, <<9472, 9599>>, <<9632, 9727>>, <<9728, 9983>>,
                 <<12272, 12287>>, <<12688, 12703>>, <<12736, 12783>>>>,
  letter   |-> <<<<128, 255>>, <<256, 383>>, <<384, 591>>, <<8528, 8591>>, <<9312, 9471>>, <<11360, 11391>>, <<65280, 65519>>>> ]

Parts == [
  kana |-> <<"hiragana", "katakana">>, hiragana |-> <<"hiragana">>, katakana |-> <<"katakana">>,
  kanji |-> <<"common", "rare">>, common |-> <<"common">>, rare |-> <<"rare">>, symbol |-> <<"symbol">>,
  letter |-> <<"letter">>, punct |-> <<"punct">>,
  recognized |-> <<"hiragana", "katakana", "common", "rare", "punct", "symbol", "letter">> ]
Classes == DOMAIN Parts

Ranges(cls) == UNION {{Blocks[b][i] : i \in 1..Len(Blocks[b])} : b \in {Parts[cls][j] : j \in 1..Len(Parts[cls])}}
RangeTab == [cls \in Classes |-> Ranges(cls)]
In(cls, c) == \E r \in RangeTab[cls] : c >= r[1] /\ c <= r[2]
IsNonSpacing(c) == (c >= 65024 /\ c <= 65039) \/ c = 12441 \/ c = 12442
WideSpace == 12288

\* merge touching ranges: <<first, last>> pairs in ascending order
RECURSIVE Merge(_, _)
Merge(todo, done) ==
  IF todo = {} THEN done
  ELSE LET r == CHOOSE x \in todo : \A y \in todo : x[1] <= y[1]
           n == Len(done)
       IN IF n > 0 /\ done[n][2] + 1 >= r[1]
          THEN Merge(todo \ {r}, [done EXCEPT ![n] = <<done[n][1], IF r[2] > done[n][2] THEN r[2] ELSE done[n][2]>>])
          ELSE Merge(todo \ {r}, Append(done, r))
Canon(rs) == Merge(rs, <<>>)
\* cut the range at one code point
Without(rs, c) == UNION {IF c < r[1] \/ c > r[2] THEN {r}
                         ELSE (IF r[1] < c THEN {<<r[1], c - 1>>} ELSE {}) \cup (IF r[2] > c THEN {<<c + 1, r[2]>>} ELSE {}) : r \in rs}

\* the first character only
First(cls, bs) == LET d == DecodeMax(bs, 1) IN Len(bs) > 1 /\ Len(d) = 1 /\ In(cls, d[1])
\* exactly one character, optionally with one non-spacing mark (never more than 8 bytes)
One(cls, bs) == LET d == DecodeMax(bs, 3) IN
  /\ Len(bs) > 1 /\ Len(bs) <= 8
  /\ Len(d) = 1 \/ (Len(d) = 2 /\ IsNonSpacing(d[2]))
  /\ In(cls, d[1])
\* every character, each optionally followed by one mark
RECURSIVE AllFrom(_, _, _, _)
AllFrom(cls, d, i, mark) ==
  IF i > Len(d) THEN TRUE
  ELSE IF mark /\ IsNonSpacing(d[i]) THEN AllFrom(cls, d, i + 1, FALSE)
  ELSE In(cls, d[i]) /\ AllFrom(cls, d, i + 1, TRUE)
All(cls, bs) == AllFrom(cls, Decode(bs), 1, FALSE)

StartsWide(bs) == Len(bs) >= 3 /\ bs[1] = 227 /\ bs[2] = 128 /\ bs[3] = 128
IsPunct(bs, space, one) == IF StartsWide(bs) THEN space /\ (Len(bs) < 4 \/ ~one)
                           ELSE IF one THEN One("punct", bs) ELSE First("punct", bs)
Is(cls, bs, one) == IF one THEN One(cls, bs) ELSE First(cls, bs)

Order == <<"kana", "hiragana", "katakana", "kanji", "common", "rare", "symbol", "letter", "recognized">>
AllOrder == <<"kana", "hiragana", "katakana", "kanji", "common", "rare", "symbol", "letter", "recognized", "punct">>
Report(bs) == [
  one |-> [i \in 1..9 |-> Is(Order[i], bs, TRUE)], first |-> [i \in 1..9 |-> Is(Order[i], bs, FALSE)],
  p |-> <<IsPunct(bs, FALSE, TRUE), IsPunct(bs, TRUE, TRUE), IsPunct(bs, FALSE, FALSE), IsPunct(bs, TRUE, FALSE)>>,
  all |-> [i \in 1..10 |-> All(AllOrder[i], bs)]]
\* ranges of code points for which a predicate holds on the encoded single character
RangeReport(p) == IF p \in Classes \ {"punct"} THEN Canon(RangeTab[p])
                  ELSE IF p = "punct" THEN Canon(Without(RangeTab["punct"], WideSpace))
                  ELSE IF p = "punctspace" THEN Canon(RangeTab["punct"])
                  ELSE \* nonspacing
                       <<<<12441, 12442>>, <<65024, 65039>>>>

(* What each block says about itself: the Unicode version that brought it (with its date) and its name.                       *)
VerDate == [v10 |-> <<"1.0", 10, 1991>>, v11 |-> <<"1.1", 6, 1993>>, v20 |-> <<"2.0", 7, 1996>>, v30 |-> <<"3.0", 9, 1999>>,
            v31 |-> <<"3.1", 3, 2001>>, v32 |-> <<"3.2", 3, 2002>>, v41 |-> <<"4.1", 3, 2005>>, v50 |-> <<"5.0", 7, 2006>>,
            v52 |-> <<"5.2", 10, 2009>>, v130 |-> <<"13.0", 3, 2020>>]
BlockNames == [
  hiragana |-> <<<<"v11", "Hiragana">>>>,
  katakana |-> <<<<"v11", "Katakana">>, <<"v32", "Katakana Phonetic Extension">>>>,
  kana     |-> <<<<"v11", "Kana">>>>,
  common   |-> <<<<"v30", "CJK Extension A">>, <<"v11", "CJK Unified Ideographs">>, <<"v11", "CJK Compat. Ideographs">>, <<"v31", "CJK Extension B">>>>,
  rare     |-> <<<<"v30", "Radicals Supp.">>, <<"v52", "CJK Extension C-F">>, <<"v31", "CJK Compat. Supp.">>, <<"v130", "CJK Extension G">>>>,
  punct    |-> <<<<"v11", "General Punctuation">>, <<"v11", "CJK Symbols and Punctuation">>, <<"v11", "Specials">>>>,
  symbol   |-> <<<<"v11", "Letter like Symbols">>, <<"v11", "Arrows">>, <<"v11", "Mathematical Operators">>, <<"v11", "Box Drawing">>,
                 <<"v11", "Geometric Shapes">>, <<"v11", "Miscellaneous Symbols">>, <<"v30", "CJK Ideographic Desc. Chars">>,
                 <<"v11", "Kanbun (Annotations)">>, <<"v41", "CJK Strokes">>>>,
  letter   |-> <<<<"v11", "Latin-1 Supplement">>, <<"v11", "Latin Extended-A">>, <<"v11", "Latin Extended-B">>, <<"v11", "Number Forms">>,
                 <<"v11", "Enclosed Alphanumerics">>, <<"v50", "Latin Extended-C">>, <<"v11", "Halfwidth and Fullwidth Forms">>>>,
  nonspacing |-> <<<<"v32", "Variation Selectors">>>> ]
Extra == [kana |-> <<<<12352, 12543>>>>, nonspacing |-> <<<<65024, 65039>>>>,
          own |-> <<<<128, 128>>, <<1114111, 1114111>>, <<39321, 65536>>, <<2748, 4660>>>>]
Limits(f) == IF f \in DOMAIN Extra THEN Extra[f] ELSE Blocks[f]
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN HexDigits[n + 1] ELSE HexText(n \div 16) \o HexDigits[n - 16 * (n \div 16) + 1]
Hex4(n) == LET h == HexText(n) IN IF Len(h) >= 4 THEN h ELSE IF Len(h) = 3 THEN "0" \o h ELSE IF Len(h) = 2 THEN "00" \o h ELSE "000" \o h
AboutBlock(f, i) ==
  LET l == Limits(f)[i]
      named == f \in DOMAIN BlockNames
      d == IF named THEN VerDate[BlockNames[f][i][1]] ELSE <<"", 0, 0>>
      name == IF named THEN BlockNames[f][i][2] ELSE ""
      vt == IF named THEN "v" \o d[1] \o ": " \o ToString(d[2]) \o ", " \o ToString(d[3]) ELSE ""
  IN [name |-> name, start |-> l[1], end |-> l[2], range |-> l[2] - l[1] + 1,
      in |-> <<FALSE, TRUE, l[1] + (l[2] - l[1] + 1) \div 2 <= l[2], TRUE, FALSE>>, w |-> l,
      ver |-> d[1], m |-> d[2], y |-> d[3], vtext |-> vt,
      text |-> IF named THEN name \o " (" \o vt \o ")" ELSE "start=" \o Hex4(l[1]) \o ", end=" \o Hex4(l[2])]
AboutBlocks(f) == [i \in 1..Len(Limits(f)) |-> AboutBlock(f, i)]

(* Block ranges: for each block its first character, a dash and its last character (the body of a bracket expression).       *)
RangeBlocks == [kanji |-> Blocks["common"] \o <<<<65024, 65039>>>> \o Blocks["rare"], wide |-> <<<<65280, 65519>>>>,
                hiragana |-> Blocks["hiragana"], katakana |-> Blocks["katakana"], kana |-> <<<<12352, 12543>>, <<12784, 12799>>>>]
RECURSIVE RangeFrom(_)
RangeFrom(b) == IF b = <<>> THEN <<>> ELSE <<b[1][1], 45, b[1][2]>> \o RangeFrom(Tail(b))
RangeChars(f) == RangeFrom(RangeBlocks[f])
\* positions 0.. of a range: its characters, the terminator, then errors; the last entry is the greatest position
RangePositions(f, a) == LET w == RangeChars(f) IN
  /\ a.size = Len(w) /\ a.w = w /\ Len(a.at) = Len(w) + 6
  /\ \A i \in 1..Len(w) : a.at[i] = [v |-> w[i]]
  /\ a.at[Len(w) + 1] = [v |-> 0] \/ ("E" \in DOMAIN a.at[Len(w) + 1] /\ a.at[Len(w) + 1].E = "RangeError")
  /\ \A i \in (Len(w) + 2)..(Len(w) + 5) :
       a.at[i] = [E |-> "RangeError", m |-> "index '" \o ToString(i - 1) \o "' is out of range for BlockRange with size '" \o ToString(Len(w)) \o "'"]
  /\ a.at[Len(w) + 6] = [E |-> "RangeError", m |-> "index '18446744073709551615' is out of range for BlockRange with size '" \o ToString(Len(w)) \o "'"]
=============================================================================
