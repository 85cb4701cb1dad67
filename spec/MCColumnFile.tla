---------------------------- MODULE MCColumnFile -----------------------------
(* Every file of one header and one row built from a small alphabet, for one,  *)
(* two and three wanted columns: a file is accepted exactly when its header    *)
(* names the wanted columns once each, a row exactly when it has that many     *)
(* cells, and then joining the cells in header order gives the row back.       *)
EXTENDS ColumnFile, Json
CONSTANTS HLen, RLen, Wanted
W == {<<"A">>, <<"A", "B">>, <<"B", "A">>, <<"A", "A">>, <<"C">>, <<"A", "B", "C">>}
VARIABLES cols, head, row, tail
Alpha == {"A", "B", "\t"}
RECURSIVE Texts(_, _)
Texts(S, n) == IF n = 0 THEN {""} ELSE {c \o t : c \in S, t \in Texts(S, n - 1)} \cup {""}
Init == cols \in Wanted /\ head \in Texts(Alpha, HLen) /\ row \in Texts({"1", "\t"}, RLen) /\ tail \in {"", "\n", "\n\n"}
Next == UNCHANGED <<cols, head, row, tail>>
E == [op |-> "open", kind |-> "file", name |-> "F", text |-> head \o "\n" \o row \o tail, cols |-> cols, delim |-> "\t"]
R1 == Apply(Closed, E)
R2 == Apply(R1.st, [op |-> "next"])
R3 == Apply(R2.st, [op |-> "next"])
HasDup == \E i, j \in 1..Len(cols) : i # j /\ cols[i] = cols[j]
\* order of the columns in the file
ByPos(z) == [i \in 1..Len(cols) |-> CHOOSE c \in DOMAIN z.pos : z.pos[c] = i]
Inv ==
  /\ ~Fail(R1.x) <=> (~HasDup /\ cols # <<>> /\ \E p \in [1..Len(cols) -> SeqSet(cols)] :
        /\ SeqSet(p) = SeqSet(cols)
        /\ head \in {Join(p, "\t"), Join(p, "\t") \o "\t"})
  /\ ~Fail(R1.x) =>
       LET z == R2.st
           empty == row = "" /\ tail = ""      \* nothing after the header line
           cells == Len(Split(row, "\t"))
           n == Len(cols)
       IN /\ empty => R2.x = Val(<<FALSE, 0>>)
          /\ ~empty => (~Fail(R2.x) <=> (cells = n \/ (cells = n + 1 /\ EndsWith(row, "\t"))))
          /\ (~empty /\ ~Fail(R2.x)) =>
               /\ Join([i \in 1..n |-> Get(z, [kind |-> "get", c |-> ByPos(z)[i]]).v], "\t") \in {row, SubSeq(row, 1, Len(row) - 1)}
               /\ R2.x = Val(<<TRUE, 1>>)
          /\ Fail(R2.x) => R2.st.row = 1
          \* a following empty line is a row of its own; a final newline is not
          /\ ~empty => (R3.st.row = IF tail = "\n\n" THEN 2 ELSE 1)
Emit == PrintT("HIST " \o ToJson([cols |-> cols, text |-> E.text]))
Spec == Init /\ [][Next]_<<cols, head, row, tail>>
=============================================================================
