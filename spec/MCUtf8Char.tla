----------------------------- MODULE MCUtf8Char ------------------------------
(* All strings of up to MaxPieces pieces and all histories of next / reset on  *)
(* one iterator. seen = characters returned since the last reset.              *)
EXTENDS Utf8Char, TLC
CONSTANTS MaxPieces, MaxOps
VARIABLES bs, n, phase, q, seen, ops
vars == <<bs, n, phase, q, seen, ops>>
Pieces == {<<65>>, <<0>>, Encode1(12363), Encode1(12399), Encode1(12454), Encode1(19968), Encode1(13312), Encode1(131072), <<233>>, <<227, 129>>, <<128>>,
           Encode1(12441), Encode1(12442), Encode1(65024), Encode1(65039), Encode1(233)}
Init == bs = <<>> /\ n = 0 /\ phase = "build" /\ q = Start /\ seen = <<>> /\ ops = 0
Build == phase = "build" /\ n < MaxPieces /\ \E x \in Pieces : bs' = bs \o x /\ n' = n + 1 /\ UNCHANGED <<phase, q, seen, ops>>
Go == phase = "build" /\ phase' = "run" /\ UNCHANGED <<bs, n, q, seen, ops>>
DoNext(mb) == /\ phase = "run" /\ ops < MaxOps /\ ops' = ops + 1
              /\ LET r == NextChar(bs, q, mb) IN
                 /\ q' = r.st
                 /\ seen' = IF r.found THEN Append(seen, r.r) ELSE seen
              /\ UNCHANGED <<bs, n, phase>>
Reset == phase = "run" /\ ops < MaxOps /\ ops' = ops + 1 /\ q' = Start /\ seen' = <<>> /\ UNCHANGED <<bs, n, phase>>
Next == Build \/ Go \/ DoNext(TRUE) \/ DoNext(FALSE) \/ Reset
Spec == Init /\ [][Next]_vars
Clean == \A i \in 1..Len(bs) : bs[i] # 0
RECURSIVE All(_, _)
All(st, mb) == LET r == NextChar(bs, st, mb) IN IF r.found THEN <<r.r>> \o All(r.st, mb) ELSE <<>>
RECURSIVE Last(_, _)
Last(st, mb) == LET r == NextChar(bs, st, mb) IN IF r.found THEN Last(r.st, mb) ELSE r.st
Valid == Encode(Decode(bs)) = bs /\ \A i \in 1..Len(Decode(bs)) : Decode(bs)[i] # Replacement
Inv ==
  /\ q.p \in 1..(Len(bs) + 1)
  \* every returned character is one valid character, optionally with a selector
  /\ \A i \in 1..Len(seen) : LET d == Decode(seen[i]) IN
        Len(seen[i]) > 0 /\ Encode(d) = seen[i] /\ (Len(d) = 1 \/ (Len(d) = 2 /\ d[2] >= 65024 /\ d[2] <= 65039))
  /\ phase = "build" =>
     LET f == All(Start, FALSE)
         l == Last(Start, FALSE)
         m == All(Start, TRUE)
         mf == SelectSeq(f, LAMBDA x : x[1] >= 128)
     IN /\ m = mf                                  \* onlyMB just filters ASCII
        /\ Last(Start, TRUE) = l                   \* and counts the same
        /\ At(bs, l.p) = 0
        /\ (Clean /\ Valid) =>
             /\ Len(f) = Size(bs, FALSE) /\ Len(m) = Size(bs, TRUE)
             /\ l.err = 0 => Len(Decode(bs)) = Len(f) + l.var + l.comb
NextMonotone == [][q'.p < q.p => seen' = <<>>]_vars
=============================================================================
