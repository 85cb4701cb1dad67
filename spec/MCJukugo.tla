-------------------------------- MODULE MCJukugo -------------------------------
(* Every sequence of a few entries in two files: a kanji lists exactly the      *)
(* distinct words that contain it, in order and each once; loading fails only   *)
(* when an entry is malformed or repeats one of the other file.                 *)
EXTENDS Jukugo, Json
CONSTANTS Pool, Size
VARIABLE h       \* <<file, entry>> ...
K1 == <<228, 184, 128>>   \* 一
K2 == <<228, 186, 140>>   \* 二
H == <<227, 129, 130>>    \* あ
P == <<227, 131, 188>>
N(i) == << K1 \o K2, K2 \o K1, K1 \o K1, K1 \o H \o K2, K1, H, K1 \o K2, K1 \o K2 >>[i]
Y(i) == << H, H, H, H \o P, H, H, H \o H, K1 >>[i]
Init == h = <<>>
Next == Len(h) < Size /\ \E f \in {1, 7} : \E i \in Pool : (IF h = <<>> THEN TRUE ELSE h[Len(h)][1] <= f) /\ h' = Append(h, <<f, i>>)
Spec == Init /\ [][Next]_h
Text(f, i) == IF f = 7 THEN N(i) \o <<OpenB>> \o Y(i) \o <<CloseB>> ELSE N(i) \o <<Space, OpenB>> \o Y(i) \o <<CloseB>>
RECURSIVE Of(_, _)
Of(f, i) == IF i > Len(h) THEN <<>> ELSE (IF h[i][1] = f THEN <<Text(f, h[i][2])>> ELSE <<>>) \o Of(f, i + 1)
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN <<>> ELSE <<Space>> \o q[1] \o Glue(Tail(q))
FilesOf == [f \in 1..7 |-> IF f = 1 THEN Of(1, 1) ELSE IF f = 7 /\ Of(7, 1) # <<>> THEN <<K1 \o <<Space, 46, 46, 46>> \o Glue(Of(7, 1))>> ELSE <<>>]
Key(i) == <<N(i), Y(i)>>
Keys == {Key(h[i][2]) : i \in 1..Len(h)}
BadEntry(i) == i \in {5, 6, 8}
Inv ==
  LET j == JLoad(FilesOf)
      clash == \E a \in 1..Len(h) : \E b \in 1..Len(h) : h[a][1] # h[b][1] /\ Key(h[a][2]) = Key(h[b][2])
      bad == \E a \in 1..Len(h) : BadEntry(h[a][2])
  IN /\ j.fail # Fine <=> clash \/ bad
     /\ j.fail = Fine =>
          \A k \in {K1, K2, H} :
            LET v == Find(j, k) IN
            /\ {<<v[i].n, v[i].y>> : i \in 1..Len(v)} = {x \in Keys : k # H /\ \E a \in 1..(Len(x[1]) - 2) : SubSeq(x[1], a, a + 2) = k}
            /\ \A a \in 1..Len(v) : \A b \in 1..(a - 1) : v[a] # v[b]
Emit == PrintT("HIST " \o ToJson(FilesOf))
=============================================================================
