------------------------------ MODULE MCTable ---------------------------------
(* Every table with a title of up to MaxCells cells of Texts (bytes of one wide*)
(* character, a non-spacing mark, a pipe, spaces...) and up to MaxRows rows.   *)
(*  - every printed line has the same columns, and borders and lines alternate *)
(*    as title and sections ask                                                *)
(*  - cutting a line at its delimiters gives the cells of the row, in order    *)
(*  - Markdown lines have one cell per column, sections are bold               *)
(*  - numbering only prepends the row's position                               *)
EXTENDS TableBytes
CONSTANTS MaxCells, MaxRows
Texts == {<<>>, <<97, 98>>, <<227, 129, 139>>, <<124>>}
RowsOf == UNION {[1..n -> Texts] : n \in 0..MaxCells}
VARIABLE z
Init == \E t \in RowsOf, c \in BOOLEAN : z = Tb!New(t, c)
Next == Len(z.rows) < MaxRows /\ \E w \in RowsOf, b \in BOOLEAN : z' = Tb!Add(z, w, b)
Spec == Init /\ [][Next]_z
RECURSIVE CutAt(_, _)
CutAt(b, cur) == IF b = <<>> THEN <<>> ELSE IF b[1] = 10 THEN <<cur>> \o CutAt(Tail(b), <<>>) ELSE CutAt(Tail(b), Append(cur, b[1]))
RECURSIVE SumW(_, _)
SumW(W, i) == IF i = 0 THEN 0 ELSE W[i] + 3 + SumW(W, i - 1)
\* cell c of a printed line, trailing spaces removed: found by display columns
RECURSIVE Take(_, _)
Take(b, n) == IF n <= 0 \/ b = <<>> THEN <<>> ELSE IF b[1] >= 227 THEN SubSeq(b, 1, 3) \o Take(SubSeq(b, 4, Len(b)), n - 2) ELSE <<b[1]>> \o Take(Tail(b), n - 1)
RECURSIVE Trim(_)
Trim(b) == IF b = <<>> \/ b[Len(b)] # 32 THEN b ELSE Trim(SubSeq(b, 1, Len(b) - 1))
RECURSIVE CellsOf(_, _, _)
CellsOf(W, b, c) == IF c > Len(W) THEN <<>> ELSE LET cell == Take(SubSeq(b, 3, Len(b)), W[c]) IN <<Trim(cell)>> \o CellsOf(W, SubSeq(b, 4 + Len(cell), Len(b)), c + 1)
IsBorder(l) == l[1] = 43
Expect == (IF z.title = <<>> THEN <<>> ELSE <<z.title>>) \o z.rows
Aligned(W, P) ==
  LET Body == SelectSeq(P, LAMBDA l : ~IsBorder(l))
      RowBefore(i) == Len(SelectSeq(SubSeq(P, 1, i), LAMBDA l : ~IsBorder(l))) - (IF z.title = <<>> THEN 0 ELSE 1)
      LineWidth == SumW(W, Len(W)) + 1
  IN /\ \A i \in 1..Len(P) : TextWidth(P[i]) = LineWidth
     /\ IsBorder(P[1]) /\ IsBorder(P[Len(P)])
     /\ Len(Body) = Len(Expect)
     /\ \A i \in 1..Len(Body) : CellsOf(W, Body[i], 1) = [c \in 1..Len(W) |-> Tb!Cell(Expect[i], c)]
     /\ {RowBefore(i) + 1 : i \in {j \in 2..(Len(P) - 1) : IsBorder(P[j])}} = z.sections
Md(W, M) ==
  /\ Len(M) = 2 + Len(z.rows)
  /\ \A i \in 1..Len(M) : Cardinality({j \in 1..Len(M[i]) : M[i][j] = 124 /\ (j = 1 \/ M[i][j - 1] # 92)}) = Len(W) + 1
  /\ \A i \in 1..Len(z.rows) : (\E j \in 1..(Len(M[i + 2]) - 1) : M[i + 2][j] = 42) <=> (i \in z.sections /\ \E c \in 1..Len(z.rows[i]) : z.rows[i][c] # <<>>)
Numbered == z.count => \A i \in 1..Len(z.rows) : z.rows[i][1] = NumberB(i)
Inv == LET W == Tb!Widths(z)
           P == CutAt(Tb!Print(z), <<>>)
           M == CutAt(Tb!Markdown(z), <<>>)
       IN Numbered /\ IF W = <<>> THEN P = <<>> /\ M = <<>> ELSE Aligned(W, P) /\ Md(W, M)
=============================================================================
