------------------------------ MODULE MCSymbol -------------------------------
(* Every history of Depth creations with Max = 3: one-to-one, consecutive,     *)
(* stable identities; types independent. Histories are replayed in the real    *)
(* code both from empty types and from types filled to the real Max - 3.       *)
EXTENDS Symbol, Json
CONSTANT Depth
VARIABLES st, hist
Nm(t) == [n |-> t, j |-> -1]
Names == {Nm(""), Nm("a"), Nm("b"), Nm("c"), Nm("d")}
Ops == [op : {"new"}, ty : Types, tn : {"T"}, a : Names] \cup [op : {"eq"}, ty : {0}, tn : {"T"}, a : {Nm("a"), Nm("d")}, c : {Nm("b"), Nm("d")}]
  \cup [op : {"exists"}, ty : Types, tn : {"T"}, a : {Nm("a")}]
Init == st = Empty /\ hist = <<>>
Next == Len(hist) < Depth /\ \E e \in Ops : st' = Apply(st, e).st /\ hist' = Append(hist, e)
Inv == \A t \in Types : LET z == st[t] IN
  /\ Size(z) <= Max
  /\ \A i, j \in 1..Len(z.names) : i # j => z.names[i] # z.names[j]
  /\ \A m, n \in Names : (m # n /\ Id(z, m) # -1 /\ Id(z, n) # -1) => Id(z, m) # Id(z, n)
  /\ \A m \in Names : Id(z, m) # -1 => Id(z, m) \in 0..Size(z)
  /\ \A m \in Names : Id(z, m) # -1 \/ Size(z) < Max \/ "E" \in DOMAIN Apply(st, [op |-> "new", ty |-> t, tn |-> "T", a |-> m]).x
Stable == [][\A t \in Types : \A m \in Names : Id(st[t], m) # -1 => Id(st'[t], m) = Id(st[t], m)]_<<st, hist>>
Spec == Init /\ [][Next]_<<st, hist>>
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================
