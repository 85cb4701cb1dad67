------------------------------- MODULE Choice --------------------------------
(* A prompt for one character. Characters are signed char values; choices are  *)
(* a sequence of [c, d] in increasing order of c (d = description, "" = none). *)
(* State: quit = <<>> or <<char>>, desc, in = input lines still to be read     *)
(* (each a sequence of bytes).                                                 *)
EXTENDS Text
Val(x) == [v |-> x]
Err(m) == [E |-> "DomainError", m |-> m]
Fail(x) == "E" \in DOMAIN x
IsPrint(c) == c \in 32..126
Hex1(n) == SubSeq("0123456789abcdef", n + 1, n + 1)
HexByte(c) == LET b == (c + 256) % 256 IN Hex1(b \div 16) \o Hex1(b % 16)
NonPrintable(what, c) == Err(what \o " is non-printable: 0x" \o HexByte(c))
Cs(q) == {q[i].c : i \in 1..Len(q)}
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF x.c < q[1].c THEN <<x>> \o q ELSE <<q[1]>> \o Insert(Tail(q), x)
RECURSIVE AddRange(_, _, _)
AddRange(q, a, b) == IF a > b THEN q ELSE AddRange(Insert(q, [c |-> a, d |-> ""]), a + 1, b)

\* listing of choices: maximal runs of adjacent characters without descriptions become one item
RunEnd(q, i) == CHOOSE j \in i..Len(q) :
  /\ \A m \in i..j : q[m].d = "" /\ q[m].c = q[i].c + (m - i)
  /\ (j < Len(q) => (q[j + 1].d # "" \/ q[j + 1].c # q[j].c + 1))
RECURSIVE Items(_, _)
Items(q, i) == IF i > Len(q) THEN <<>>
  ELSE IF q[i].d # "" THEN <<Chr(q[i].c) \o "=" \o q[i].d>> \o Items(q, i + 1)
  ELSE LET j == RunEnd(q, i) IN <<IF j = i THEN Chr(q[i].c) ELSE Chr(q[i].c) \o "-" \o Chr(q[j].c)>> \o Items(q, j + 1)
Listing(q) == Join(Items(q, 1), ", ")
Prompt(msg, q, def) == (IF msg = "" THEN "(" ELSE msg \o " (") \o Listing(q) \o
                       (IF def = <<>> THEN "): " ELSE ") def '" \o Chr(def[1]) \o "': ")

\* check of a request: error, or the complete set of choices
Request(z, e) ==
  LET ranged == e.range # <<>>
      a == e.range[1]
      b == e.range[2]
      q0 == e.choices
      clash == {x \in a..b : x \in Cs(q0)}
      q1 == IF ranged THEN AddRange(q0, a, b) ELSE q0
      q2 == IF z.quit # <<>> /\ e.useQuit THEN Insert(q1, [c |-> z.quit[1], d |-> z.desc]) ELSE q1
      odd == {x \in Cs(q2) : ~IsPrint(x)}
      Least(S) == CHOOSE x \in S : \A y \in S : x <= y
  IN IF ranged /\ ~IsPrint(a) THEN NonPrintable("first range option", a)
     ELSE IF ranged /\ ~IsPrint(b) THEN NonPrintable("last range option", b)
     ELSE IF ranged /\ a > b THEN Err("first range option '" \o Chr(a) \o "' is greater than last '" \o Chr(b) \o "'")
     ELSE IF ranged /\ clash # {} THEN Err("range option '" \o Chr(Least(clash)) \o "' already in choices")
     ELSE IF z.quit # <<>> /\ z.quit[1] \in Cs(q1) THEN Err("quit option '" \o Chr(z.quit[1]) \o "' already in choices")
     ELSE IF q2 = <<>> THEN Err("must specify at least one choice")
     ELSE IF odd # {} THEN NonPrintable("option", Least(odd))
     ELSE IF e.def # <<>> /\ e.def[1] \notin Cs(q2) THEN Err("default option '" \o e.defs \o "' not in choices")
     ELSE Val(q2)

\* one round: the answer to line l (none: <<>>)
Answer(l, q, def) == IF l = <<>> /\ def # <<>> THEN def
                     ELSE IF Len(l) = 1 /\ (IF l[1] > 127 THEN l[1] - 256 ELSE l[1]) \in Cs(q) THEN <<IF l[1] > 127 THEN l[1] - 256 ELSE l[1]>>
                     ELSE <<>>
RECURSIVE Ask(_, _, _, _)
\* rounds until answered: [n: rounds asked, in: lines left, a: answer or <<>> (end of input)]
Ask(in, q, def, n) ==
  IF in = <<>> THEN [n |-> n + 1, in |-> in, a |-> def]
  ELSE LET a == Answer(Head(in), q, def) IN
       IF a # <<>> THEN [n |-> n + 1, in |-> Tail(in), a |-> a] ELSE Ask(Tail(in), q, def, n + 1)

Get(z, e) ==
  LET w == Request(z, e) IN
  IF Fail(w) THEN [x |-> [res |-> w, out |-> ""], st |-> z]
  ELSE LET k == Ask(z.in, w.v, e.def, 0) IN
       [x |-> [res |-> IF k.a = <<>> THEN Err("end of input") ELSE Val(k.a[1]), out |-> Times(Prompt(e.msg, w.v, e.def), k.n)],
        st |-> [z EXCEPT !.in = k.in]]

\* the same at a terminal: every key is an answer (newline: the empty one), each is followed by a line end
Tty(e) ==
  LET y == [quit |-> e.quit, desc |-> "quit", in |-> e.keys]
      w == Request(y, e)
      k == Ask(e.keys, w.v, e.def, 0)
      \* a hang up is not an empty answer
      eof == k.in = <<>> /\ k.n > Len(e.keys)
      p == Prompt(e.msg, w.v, e.def)
  IN IF Fail(w) THEN [res |-> w, out |-> "", term |-> TRUE]
     ELSE [res |-> IF eof THEN Err("end of input") ELSE Val(k.a[1]), term |-> TRUE,
           out |-> Times(p \o "\n", IF eof THEN k.n - 1 ELSE k.n) \o (IF eof THEN p ELSE "")]

Apply(z, e) ==
  CASE e.op = "new" -> LET bad == e.quit # <<>> /\ ~IsPrint(e.quit[1]) IN
         [x |-> IF bad THEN NonPrintable("quit option", e.quit[1]) ELSE Val(0),
          st |-> [quit |-> IF bad THEN <<>> ELSE e.quit, desc |-> IF bad \/ e.quit = <<>> THEN "quit" ELSE e.desc, in |-> e.in]]
    [] e.op = "setquit" -> IF IsPrint(e.quit[1]) THEN [x |-> Val(0), st |-> [z EXCEPT !.quit = e.quit, !.desc = e.desc]]
                           ELSE [x |-> NonPrintable("quit option", e.quit[1]), st |-> z]
    [] e.op = "clear" -> [x |-> Val(0), st |-> [z EXCEPT !.quit = <<>>]]
    [] e.op = "quit" -> [x |-> Val([quit |-> z.quit, desc |-> z.desc, is |-> <<e.c>> = z.quit]), st |-> z]
    [] e.op = "tty" -> [x |-> Val(Tty(e)), st |-> z]
    [] e.op = "get" -> LET a == Get(z, e) IN [x |-> Val(a.x), st |-> a.st]
=============================================================================
