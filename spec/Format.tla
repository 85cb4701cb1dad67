------------------------------- MODULE Format --------------------------------
(* The furigana formatter, line by line. State: held = <<>> or <<line>>, the   *)
(* line that ends with a kanji and may be continued by a line of kana. Lines   *)
(* are byte sequences without newline.                                         *)
EXTENDS CharClass
InRegexKanji(c) == In("kanji", c) \/ c \in 65024..65039
EndsWithKanji(l) == LET d == Decode(l) IN d # <<>> /\ InRegexKanji(d[Len(d)])
AllKana(l) == LET d == Decode(l) IN d # <<>> /\ \A i \in 1..Len(d) : In("kana", d[i])
Open == <<239, 188, 136>>   \* （
Close == <<239, 188, 137>>  \* ）
NL == <<10>>
\* [held, out] after line l
Read(held, l) ==
  IF held # <<>> /\ AllKana(l) THEN [held |-> <<>>, out |-> held[1] \o Open \o l \o Close]
  ELSE LET before == IF held = <<>> THEN <<>> ELSE held[1] \o NL IN
       IF EndsWithKanji(l) THEN [held |-> <<l>>, out |-> before] ELSE [held |-> <<>>, out |-> before \o l \o NL]
End(held) == IF held = <<>> THEN <<>> ELSE held[1] \o NL
RECURSIVE FormatFrom(_, _, _)
FormatFrom(lines, i, held) == IF i > Len(lines) THEN End(held) ELSE LET a == Read(held, lines[i]) IN a.out \o FormatFrom(lines, i + 1, a.held)
Formatted(lines) == FormatFrom(lines, 1, <<>>)
=============================================================================
