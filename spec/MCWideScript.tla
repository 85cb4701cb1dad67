----------------------------- MODULE MCWideScript -----------------------------
(* Every ascending file of a few short lines: the blocks cover exactly the wide  *)
(* code points, in order, and no two of them touch (no smaller list exists).     *)
EXTENDS WideScript, TLC, Json
CONSTANTS Max, MaxLines, Widths
VARIABLE f
Init == f = <<>>
Lines == {[lo |-> a, hi |-> b, w |-> w] : a \in 1..Max, b \in 1..Max, w \in Widths}
Top == LET S == {f[i].hi : i \in 1..Len(f)} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Next == Len(f) < MaxLines /\ \E l \in Lines : l.lo <= l.hi /\ l.hi <= l.lo + 2 /\ l.lo > Top /\ f' = Append(f, l)
Spec == Init /\ [][Next]_f
In(x, q) == \E i \in 1..Len(q) : q[i][1] <= x /\ x <= q[i][2]
Inv == LET b == Blocks(f) IN
  /\ \A x \in 0..(Max + 1) : In(x, b) = (\E i \in 1..Len(f) : f[i].w \in Wide /\ f[i].lo <= x /\ x <= f[i].hi)
  /\ \A i \in 1..Len(b) : b[i][1] <= b[i][2] /\ (i > 1 => b[i - 1][2] + 1 < b[i][1])
Emit == PrintT("HIST " \o ToJson(f))
===============================================================================
