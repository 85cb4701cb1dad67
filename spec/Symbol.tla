------------------------------- MODULE Symbol --------------------------------
(* Interning of names. State: for every symbol type, the names in the order in *)
(* which they were first used (a name's identity is its position), except that *)
(* the first base identities may belong to the names "f0", "f1", ... (bulk     *)
(* filled, so that the real 16 bit capacity can be reached).                   *)
(* A name is [n |-> text, j |-> i if the text is "f" + i, otherwise -1].       *)
EXTENDS Integers, Sequences, TLC
CONSTANT Max
Types == {0, 1}
Empty == [t \in Types |-> [base |-> 0, names |-> <<>>]]
Size(z) == z.base + Len(z.names)
Val(x) == [v |-> x]
Ix(z, n) == {i \in 1..Len(z.names) : z.names[i] = n}
Id(z, nm) == IF nm.n = "" THEN 0
             ELSE IF nm.j >= 0 /\ nm.j < z.base THEN nm.j + 1
             ELSE IF Ix(z, nm.n) = {} THEN -1 ELSE z.base + (CHOOSE i \in Ix(z, nm.n) : TRUE)
\* successor state of one type after use of a name (unchanged for known names and at capacity)
Use(z, nm) == IF Id(z, nm) # -1 \/ Size(z) >= Max THEN z ELSE [z EXCEPT !.names = Append(@, nm.n)]
NameOK(nm) == nm.j < 0 \/ nm.n = "f" \o ToString(nm.j)
Show(z, nm, ty) == [id |-> Id(z, nm), name |-> nm.n, b |-> Id(z, nm) # 0, size |-> Size(z), type |-> ty]
Full(ty, nm) == [E |-> "DomainError", m |-> ty \o ": can't add '" \o nm.n \o "' - max capacity"]

\* e.ty: which of the session's types; e.tn: the type's name
Apply(st, e) ==
  LET z == st[e.ty]
      Put(y) == [st EXCEPT ![e.ty] = y]
  IN CASE e.op = "new" -> LET y == Use(z, e.a) IN [x |-> IF Id(y, e.a) = -1 THEN Full(e.tn, e.a) ELSE Val(Show(y, e.a, e.tn)), st |-> Put(y)]
       [] e.op = "empty" -> [x |-> Val(Show(z, [n |-> "", j |-> -1], e.tn)), st |-> st]
       [] e.op = "exists" -> [x |-> Val(Id(z, e.a) > 0), st |-> st]
       [] e.op = "eq" -> LET y == Use(z, e.a)
                             w == Use(y, e.c) IN
            IF Id(y, e.a) = -1 THEN [x |-> Full(e.tn, e.a), st |-> st]
            ELSE [x |-> IF Id(w, e.c) = -1 THEN Full(e.tn, e.c) ELSE Val(<<e.a.n = e.c.n, e.a.n # e.c.n>>), st |-> Put(w)]
       [] e.op = "fill" -> [x |-> Val([ok |-> TRUE, size |-> e.k]), st |-> Put([base |-> e.k, names |-> <<>>])]
=============================================================================
