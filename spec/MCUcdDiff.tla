------------------------------ MODULE MCUcdDiff -------------------------------
(* Every command line of up to MaxArgs tokens over two files: it is refused with *)
(* one message or shows something of the records it names; comparing a with b    *)
(* and b with a shows the same two sides in the other order; what both sides     *)
(* share is never shown, what only one has always is.                            *)
EXTENDS UcdDiff, Json
CONSTANTS MaxArgs
VARIABLE q
F(n, v) == [n |-> n, v |-> v, k |-> n \in {"kA", "kB"}]
A1 == <<F("age", "1.1"), F("kA", "x"), F("kB", "")>>
A2 == <<F("age", "1.1"), F("kA", "y"), F("kB", "")>>
B1 == <<F("age", "3.0"), F("kA", "x")>>
W == [disk |-> ("F1" :> (("4E00" :> A1) @@ ("4E01" :> B1) @@ ("20000" :> A1))) @@ ("F2" :> (("4E00" :> A2) @@ ("4E01" :> B1))), old |-> "F1", new |-> "F0"]
Tok(s, code, many) == [s |-> s, code |-> code, many |-> many]
Tokens == <<Tok("-d", "", FALSE), Tok("-o", "", FALSE), Tok("-n", "", FALSE), Tok("-f", "", FALSE), Tok("-p", "", FALSE), Tok("F1", "", FALSE), Tok("F2", "", FALSE), Tok("F3", "", FALSE),
            Tok("4e00", "4E00", FALSE), Tok("U", "4E01", FALSE), Tok("20000", "20000", FALSE), Tok("4E02", "4E02", FALSE), Tok("4E0", "", FALSE), Tok("UU", "", TRUE)>>
Init == q = <<>>
Next == Len(q) < MaxArgs /\ \E i \in 1..Len(Tokens) : q' = Append(q, i)
Spec == Init /\ [][Next]_q
Args(p) == [i \in 1..Len(p) |-> Tokens[p[i]]]
SeqSet(p) == {p[i] : i \in 1..Len(p)}
Inv ==
  LET o == UDiff(W, Args(q))
      n == Len(q)
  IN IF o.fail # "" THEN DOMAIN o = {"fail"}
     ELSE /\ o.show = "diff" => /\ Len(o.sides) \in 1..2
                                /\ \A i \in 1..Len(o.sides) : LET d == o.sides[i] IN d.fields # <<>> /\ SeqSet(d.fields) \subseteq SeqSet(W.disk[d.file][d.code])
                                /\ Len(o.sides) = 2 => SeqSet(o.sides[1].fields) \cap SeqSet(o.sides[2].fields) = {}
          /\ o.show = "cjk" => \A i \in 1..Len(o.fields) : o.fields[i].v # ""
          \* with -f the two code points can be swapped
          /\ n = 4 /\ q[1] = 4 /\ q[3] > 8 => LET b == UDiff(W, Args(<<q[1], q[2], q[4], q[3]>>)) IN
               /\ b.fail = "" /\ o.show \in {"diff", "same"} /\ b.show = o.show
               /\ o.show = "diff" => SeqSet(o.sides) = SeqSet(b.sides)
Emit == PrintT("HIST " \o ToJson(q))
===============================================================================
