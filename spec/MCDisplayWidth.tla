-------------------------- MODULE MCDisplayWidth ----------------------------
(* Every string of up to MaxChars characters: padding with Setw always fills   *)
(* the field exactly (or the text is already wider), and widths add up.        *)
EXTENDS DisplayWidth
CONSTANT MaxChars
VARIABLES bs, n, sum
Alphabet == {65, 233, 12354, 19968, 12441, 65024, 65313, 65393, 131072, 127744, 4352, 8986, 65533}
Init == bs = <<>> /\ n = 0 /\ sum = 0
Next == n < MaxChars /\ \E c \in Alphabet : bs' = bs \o Encode1(c) /\ n' = n + 1 /\ sum' = sum + Width(c)
Spec == Init /\ [][Next]_<<bs, n, sum>>
Inv == /\ TextWidth(bs) = sum
       /\ \A f \in 0..8 : Printed(bs, Setw(bs, f)) = (IF f > sum THEN f ELSE sum)
       /\ n = 0 => \A i \in 1..(Len(Wide) - 1) : Wide[i][1] <= Wide[i][2] /\ Wide[i][2] < Wide[i+1][1]
       /\ \A c \in Alphabet : In("kanji", c) => Width(c) = 2
       /\ n = 0 => LET w == WidthRanges IN w[1][1] = 1 /\ w[Len(w)][2] = MaxUnicode /\ \A i \in 1..(Len(w)-1) : w[i][2] + 1 = w[i+1][1] /\ w[i][3] # w[i+1][3]
=============================================================================
