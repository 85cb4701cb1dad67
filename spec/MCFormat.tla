------------------------------ MODULE MCFormat --------------------------------
(* Every file of up to MaxLines of Alphabet. Reading a line at a time:         *)
(*  - what was written and what is held together are the text read so far,     *)
(*    without the brackets that were added and the line ends that were replaced *)
(*  - a line is held exactly while it ends with a kanji and nothing followed   *)
(*  - the end leaves nothing held                                              *)
(* Every file is printed for replay.                                           *)
EXTENDS Format, Json
CONSTANTS Alphabet, MaxLines
Kanji == <<230, 188, 162>>
Ka == <<227, 129, 139>>
KA == <<227, 130, 171>>
A_quick == {<<>>, Kanji, Ka, <<97>>, <<97>> \o Kanji, Ka \o KA, Kanji \o Ka, Ka \o <<97>>, Open \o Ka \o Close}
A_thorough == A_quick \cup {Kanji \o <<239, 184, 128>>, <<240, 160, 128, 139>>, <<255>>, Kanji \o <<13>>, <<227, 131, 188>>}
VARIABLES lines, held, out
vars == <<lines, held, out>>
Init == lines = <<>> /\ held = <<>> /\ out = <<>>
Next == Len(lines) < MaxLines /\ \E l \in Alphabet : LET a == Read(held, l) IN lines' = Append(lines, l) /\ held' = a.held /\ out' = out \o a.out
Spec == Init /\ [][Next]_vars
RECURSIVE Strip(_)
Strip(b) == IF b = <<>> THEN <<>> ELSE IF b[1] = 10 THEN Strip(Tail(b))
            ELSE IF Len(b) >= 3 /\ SubSeq(b, 1, 3) \in {Open, Close} THEN Strip(SubSeq(b, 4, Len(b))) ELSE <<b[1]>> \o Strip(Tail(b))
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))
NoLoss == Strip(out \o End(held)) = Strip(Concat(lines))
Held == (held # <<>>) <=> (lines # <<>> /\ EndsWithKanji(lines[Len(lines)]))
Whole == Formatted(lines) = out \o End(held)
Emit == PrintT("HIST " \o ToJson(lines))
Inv == NoLoss /\ Held /\ Whole /\ Emit
=============================================================================
