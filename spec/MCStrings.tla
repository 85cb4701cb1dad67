------------------------------ MODULE MCStrings ------------------------------
(* All bit strings up to MaxBits (in steps of 4) and all byte strings over a   *)
(* small alphabet: the helpers are inverse to reading the digits back, never   *)
(* change what they should not, and are idempotent.                            *)
EXTENDS Strings
CONSTANTS MaxBits, MaxText
VARIABLES kind, x
Init == x = <<>> /\ kind \in {"bits", "text"}
Next == \/ kind = "bits" /\ Len(x) < MaxBits /\ \E b \in {0, 1} : x' = Append(x, b) /\ kind' = kind
        \/ kind = "text" /\ Len(x) < MaxText /\ \E b \in {65, 90, 97, 122, 64, 91, 96, 123, 48, 0, 128, 255, 193} : x' = Append(x, b) /\ kind' = kind
Spec == Init /\ [][Next]_<<kind, x>>
RECURSIVE Val(_, _)
Val(ds, base) == IF ds = <<>> THEN 0 ELSE Val(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
Un(h) == [i \in 1..Len(h) |-> IF h[i] < 58 THEN h[i] - 48 ELSE IF h[i] < 97 THEN h[i] - 55 ELSE h[i] - 87]
Inv ==
  /\ kind = "bits" /\ Len(x) > 0 => \A m \in {0, 1, 3, 9} :
       /\ Val(Un(Binary(x, m)), 2) = Val(x, 2) /\ Len(Binary(x, m)) >= (IF m = 0 THEN Len(x) ELSE m)
       /\ Len(x) % 4 = 0 => /\ Val(Un(Hex(x, TRUE, m)), 16) = Val(x, 2) /\ Val(Un(Hex(x, FALSE, m)), 16) = Val(x, 2)
                            /\ UnicodeOne(Val(x, 2)) = Hex(x, TRUE, 4)
                            /\ Upper(Hex(x, FALSE, m)) = Hex(x, TRUE, m)
  /\ kind = "text" =>
       /\ Lower(Upper(Lower(x))) = Lower(x) /\ Upper(Lower(x)) = Upper(x) /\ Len(Lower(x)) = Len(x)
       /\ \A i \in 1..Len(x) : Lower(x)[i] # x[i] => IsUpper(x[i])
       /\ \A i \in 1..Len(x) : Upper(x)[i] # x[i] => IsLower(x[i])
       /\ x # <<>> => Tail(FirstUpper(x)) = Tail(x) /\ FirstUpper(x)[1] = Upper(x)[1] /\ FirstLower(x)[1] = Lower(x)[1]
       /\ Singles(x).all /\ x # <<>> => Singles(x).any
       /\ \A b \in {"Curly", "Round", "Square"} : Len(Brackets(b, x)) = Len(x) + 2 /\ SubSeq(Brackets(b, x), 2, Len(x) + 1) = x
=============================================================================
