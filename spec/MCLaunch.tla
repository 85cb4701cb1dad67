------------------------------- MODULE MCLaunch --------------------------------
(* Every list of up to Most arguments: at most one mode and one type are taken, *)
(* options given in another order mean the same, what follows a kanji or -h is  *)
(* ignored, data options change nothing, and everything else is refused.        *)
EXTENDS Quiz, SequencesExt, Json
CONSTANTS Most
VARIABLES q
\* texts and their bytes
Alphabet == <<"-r", "-t", "-r2", "-t0", "-r-3", "-t-", "-t99999", "-f", "-g1", "-gs", "-k0", "-m", "-p4", "-px", "-s", "--", "-h", "-", "", "-x", "-rs", "x", "70000", "-data", "-info", "n1x", "u12">>
Bytes(t) == [i \in 1..Len(t) |-> T!Ord(T!Ch(t, i))]
A(t) == [t |-> t, b |-> Bytes(t)]
C == [z |-> [freq |-> <<>>]]
Parsed(x) == ParseArgs(C, AFresh, [i \in 1..Len(x) |-> A(x[i])], 1)
Opts == SetOf(Alphabet)
Init == q = <<>>
Next == Len(q) < Most /\ \E t \in Opts : q' = Append(q, t)
Spec == Init /\ [][Next]_q
Modes == {"-r", "-t", "-r2", "-t0", "-r-3"}
Kinds == {"-f", "-g1", "-gs", "-m", "-p4"}
Good == Modes \cup Kinds \cup {"-s"}
Data == {"-info"}
\* the arguments that count
Seen == SelectSeq(q, LAMBDA t : t \notin Data)
Simple == \A i \in 1..Len(Seen) : Seen[i] \in Good
Count(S) == Cardinality({i \in 1..Len(Seen) : Seen[i] \in S})
Inv == LET p == Parsed(q) IN
  /\ p.do \in {"quiz", "help", "fail"} /\ (p.do = "fail") = (p.fail # "")
  /\ p.mode \in {"", "r", "t"} /\ p.order \in {"", "b", "e", "r"} /\ p.first \in 0..65535 /\ (p.order = "" => p.first = 0)
  /\ Simple => (p.do = "quiz") = (Count(Modes) <= 1 /\ Count(Kinds) <= 1)
  /\ Simple /\ p.do = "quiz" =>
       /\ (p.mode = "r") = (Count({"-r", "-r2", "-r-3"}) = 1) /\ (p.mode = "t") = (Count({"-t", "-t0"}) = 1)
       /\ (p.order = "b") = (Count({"-r2"}) = 1) /\ (p.order = "e") = (Count({"-r-3"}) = 1) /\ (p.order = "r") = (Count({"-t0"}) = 1)
       /\ (p.type # <<>>) = (Count(Kinds) = 1) /\ (p.list # <<>>) = (Count({"-g1", "-gs", "-p4"}) = 1)
       /\ p.show = (Count({"-s"}) > 0)
       /\ Parsed(Rev(q)) = p
  /\ \A i \in 1..Len(q) : q[i] = "-info" /\ (\A j \in 1..(i - 1) : q[j] # "-data") => Parsed(RemoveAt(q, i)) = p
  \* the first argument that decides: later ones change nothing
  /\ \A i \in 1..Len(q) : LET f == Parsed(SubSeq(q, 1, i)) IN f.do # "quiz" => p = f
Emit == Len(q) > 2 \/ PrintT("HIST " \o ToJson([args |-> q, do |-> Parsed(q).do]))
EmitAll == PrintT("HIST " \o ToJson([args |-> q, do |-> Parsed(q).do]))
=============================================================================
