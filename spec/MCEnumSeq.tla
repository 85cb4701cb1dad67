------------------------------ MODULE MCEnumSeq ------------------------------
(* Every history of Depth iterator operations over a container of N positions  *)
(* (list or two maps). Printed histories are replayed in the real code.        *)
EXTENDS EnumSeq, Json
CONSTANTS N, Kind, Depth, Big
VARIABLES z, hist
Names == [i \in 1..N |-> "x" \o ToString(i)]
Ons == IF Kind = "list" THEN {"l"} ELSE {"a", "b"}
R == {1, 2}
Offs == {-N - 1, -1, 0, 1, 2, N, Big}
Ops == {[op |-> o, g |-> r, on |-> c] : o \in {"begin", "end"}, r \in R, c \in Ons}
  \cup {[op |-> o, g |-> 1] : o \in {"inc", "dec", "incp", "decp", "deref", "def"}}
  \cup {[op |-> o, g |-> 1, i |-> i] : o \in {"add", "plus", "sub", "minus", "at"}, i \in Offs}
  \cup {[op |-> o, g |-> 1, q |-> 2] : o \in {"diff", "cmp", "copy"}}
Init == z = New(Kind, N, FALSE, Names) /\ hist = <<>>
Next == Len(hist) < Depth /\ \E e \in Ops : z' = Apply(z, e).st /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_<<z, hist>>
Inv == /\ \A r \in Regs : z.it[r].p \in 0..N
       /\ \A e \in Ops : LET a == Apply(z, e) IN
            /\ Fail(a.x) => a.st = z                                   \* errors change nothing
            /\ e.op \in {"inc", "add", "incp"} /\ ~Fail(a.x) =>        \* moves are undone by the opposite move
                 Apply(a.st, [op |-> "sub", g |-> e.g, i |-> IF e.op = "add" THEN e.i ELSE 1]).st = z
            /\ (e.op = "diff" /\ ~Fail(a.x)) => (Apply(z, [op |-> "plus", g |-> e.q, i |-> a.x.v]).x = Val(z.it[e.g].p))
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
