------------------------------ MODULE MCOptions -------------------------------
(* Every list of up to MaxLen arguments and a few trees and current folders:   *)
(* each argument has exactly one role, the program's own ones are visited once *)
(* and in order, the folder found is valid and the nearest.                    *)
EXTENDS Options, Json
CONSTANTS MaxLen
VARIABLES x, y
Words == <<"-data", "-debug", "-info", "w", "@/g", "@/b", "g">>
Zero == <<"", "prog", "@/a/bin/prog", "../c/bin/prog", "@/none/prog">>
D(p, n) == [p |-> p, txt |-> n]
Base == <<D(<<>>, 0), D(<<"g">>, 10), D(<<"b">>, 9), D(<<"a">>, 0), D(<<"a", "bin">>, 2), D(<<"c">>, 0), D(<<"c", "bin">>, 10)>>
Datas == <<D(<<"data">>, 10), D(<<"a", "data">>, 10), D(<<"a", "bin", "data">>, 10), D(<<"c", "data">>, 11), D(<<"c", "data">>, 10), D(<<"data">>, 9)>>
Folders == <<<<>>, <<"a">>, <<"a", "bin">>, <<"c">>>>
Tree(S) == [dirs |-> Base \o SelectSeq(Datas, LAMBDA d : \E i \in S : Datas[i] = d), files |-> <<<<"w">>>>]
TreeSets == {{}, {1}, {2}, {3}, {4}, {5}, {6}, {1, 2}, {2, 4}, {3, 5}, {5, 6}, {1, 3, 4}}
\* argument lists with any tree where they matter: without -data the tree and folder count
Init == \/ x \in {[a |-> <<z>> \o [i \in 1..Len(q) |-> Words[q[i]]], t |-> {2}, c |-> 2] : z \in {"prog"}, q \in UNION {[1..n -> 1..Len(Words)] : n \in 0..MaxLen}} /\ y = 0
        \/ x \in {[a |-> IF z = "" THEN <<>> ELSE <<z, "w">>, t |-> t, c |-> c] : z \in {Zero[i] : i \in 1..Len(Zero)}, t \in TreeSets, c \in 1..Len(Folders)} /\ y = 1 /\ ~(x.c = 1 /\ x.a # <<>> /\ x.a[1] = Zero[4]) \* (nothing is known above the root)
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
\* the role of each argument after the program, read from the left
RECURSIVE Roles(_, _)
Roles(q, value) == IF q = <<>> THEN <<>> ELSE LET me == IF value THEN "value" ELSE IF q[1] = "-data" THEN "data" ELSE IF IsMode(q[1]) THEN "mode" ELSE "own" IN <<me>> \o Roles(Tail(q), me = "data")
Args == x.a
Inv ==
  LET t == Tree(x.t)
      cwd == Folders[x.c]
      d == DataDir(t, cwd, Args)
      m == Mode(Args)
      own == Own(Args, 0)
      role == IF Args = <<>> THEN <<>> ELSE Roles(Tail(Args), FALSE)
      got == T!Split(d.v, "/")
      p == Tail(got)
      anc == {SubSeq(cwd, 1, i) : i \in 0..Len(cwd)}
      near == {a \in anc : Valid(t, Append(a, "data"))}
  IN /\ \A i \in 1..Len(own) : i > 1 => own[i] > own[i - 1]
     /\ {own[i] : i \in 1..Len(own)} = {i \in 1..Len(role) : role[i] = "own"}
     /\ "v" \in DOMAIN d =>
          (/\ Valid(t, p)
           /\ (DataAt(Args) = {} /\ near # {}) => ((\A a \in near : Len(a) < Len(p)) /\ Up(p) \in near)
           /\ ("v" \in DOMAIN m /\ Cardinality(DataAt(Args)) < 2) => ((m.v # "none") <=> \E i \in 1..Len(role) : role[i] = "mode"))
     /\ (DataAt(Args) = {} /\ near # {}) => "v" \in DOMAIN d
Emit == PrintT("HIST " \o ToJson(x @@ [k |-> y]))
=============================================================================
