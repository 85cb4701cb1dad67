-------------------------------- MODULE Jukugo --------------------------------
(* Compound words: files 1..6 have one "name (reading)" per line, file 7 lines *)
(* "kanji ... name(reading) name(reading)". All text is bytes. State j: words  *)
(* (sequence of [n, y, g] in load order), fail (the fatal error: its message,  *)
(* or only the end of it when any = TRUE).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
C == INSTANCE Utf8Count
T == INSTANCE Text
B(t) == [i \in 1..Len(t) |-> T!Ord(T!Ch(t, i))]
Files == <<"g1", "g2", "g3", "g4", "g5", "g6", "other">>
Grades == <<"G1", "G2", "G3", "G4", "G5", "G6", "S">>
Space == 32
OpenB == 40
CloseB == 41
RECURSIVE At(_, _, _)
At(q, x, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = x THEN i ELSE At(q, x, i + 1)
\* pieces between single spaces; nothing after a last space
RECURSIVE Words(_)
Words(q) == LET i == At(q, Space, 1) IN IF q = <<>> THEN <<>> ELSE IF i = 0 THEN <<q>> ELSE <<SubSeq(q, 1, i - 1)>> \o Words(SubSeq(q, i + 1, Len(q)))
RECURSIVE CharsFrom(_, _)
CharsFrom(n, q) == LET x == C!U8!NextChar(n, q, TRUE) IN IF ~x.found THEN <<>> ELSE <<x.r>> \o CharsFrom(n, x.st)
CharsOf(n) == CharsFrom(n, C!U8!Start)
KanjiOf(n) == SelectSeq(CharsOf(n), LAMBDA c : C!One("kanji", c))
Prolong == <<227, 131, 188>>
BadReading(y) == LET q == CharsOf(y) IN \E i \in 1..Len(q) : q[i] # Prolong /\ ~C!One("hiragana", q[i])
About(n, m) == B("jukugo '") \o n \o B("' " \o m)
Fine == <<>>
\* what is wrong with an entry (Fine: nothing) and the entry
Parse(l, single) ==
  LET o == At(l, OpenB, 1)
      c == At(l, CloseB, 1)
      bad(m) == [why |-> B(m)]
  IN IF o = 0 THEN bad("failed to find open bracket")
     ELSE IF single /\ (o < 3 \/ l[o - 1] # Space) THEN bad("open bracket should follow a space")
     ELSE IF c = 0 THEN bad("failed to find close bracket")
     ELSE IF single /\ c # Len(l) THEN bad("close bracket should be the last character")
     ELSE IF c < o THEN bad("close bracket found before open bracket")
     ELSE [why |-> Fine, n |-> SubSeq(l, 1, IF single THEN o - 2 ELSE o - 1), y |-> SubSeq(l, o + 1, c - 1)]
Entry(j, l, f) ==
  LET p == Parse(l, f < 7)
      k == Len(KanjiOf(p.n))
      same == {i \in 1..Len(j.words) : j.words[i].n = p.n /\ j.words[i].y = p.y}
      stop(m) == [j EXCEPT !.fail = m]
  IN IF p.why # Fine THEN stop(p.why)
     ELSE IF \E i \in same : j.words[i].g # Grades[f] THEN stop(About(p.n, "found in more than one file"))
     ELSE IF same # {} THEN j
     ELSE IF k = 0 THEN stop(About(p.n, "contains no Kanji"))
     ELSE IF k = 1 THEN stop(About(p.n, "must contain two or more Kanji"))
     ELSE IF BadReading(p.y) THEN stop(About(p.n, "reading must be all Hiragana"))
     ELSE [j EXCEPT !.words = Append(@, [n |-> p.n, y |-> p.y, g |-> Grades[f]])]
RECURSIVE Entries(_, _, _)
Entries(j, q, f) == IF q = <<>> \/ j.fail # Fine THEN j ELSE Entries(Entry(j, q[1], f), Tail(q), f)
RECURSIVE DotsAt(_, _)
DotsAt(l, i) == IF i + 2 > Len(l) THEN 0 ELSE IF l[i] = 46 /\ l[i + 1] = 46 /\ l[i + 2] = 46 THEN i ELSE DotsAt(l, i + 1)
Line(j, l, f) ==
  LET d == DotsAt(l, 1) IN
  IF f < 7 THEN Entry(j, l, f)
  ELSE IF d = 0 THEN [j EXCEPT !.fail = B("line is missing '...'")]
  ELSE IF d + 2 = Len(l) THEN [j EXCEPT !.fail = <<0>>, !.any = TRUE]   \* nothing after the dots
  ELSE Entries(j, Words(SubSeq(l, d + 4, Len(l))), f)
RECURSIVE LinesFrom(_, _, _, _)
LinesFrom(j, q, f, i) ==
  IF i > Len(q) THEN j
  ELSE LET x == Line(j, q[i], f)
           where == B(" - line: " \o ToString(i) \o ", file: " \o Files[f] \o ".txt")
       IN IF x.fail # Fine THEN [x EXCEPT !.fail = IF x.any THEN where ELSE @ \o where] ELSE LinesFrom(x, q, f, i + 1)
RECURSIVE FilesFrom(_, _, _)
FilesFrom(j, files, f) == IF f > Len(files) \/ j.fail # Fine THEN j ELSE FilesFrom(LinesFrom(j, files[f], f, 1), files, f + 1)
JLoad(files) == FilesFrom([words |-> <<>>, fail |-> Fine, any |-> FALSE], files, 1)
Holds(q, x) == \E i \in 1..Len(q) : q[i] = x
Find(j, k) == SelectSeq(j.words, LAMBDA w : Holds(KanjiOf(w.n), k))
EndsIn(q, e) == Len(q) >= Len(e) /\ SubSeq(q, Len(q) - Len(e) + 1, Len(q)) = e
JApply(z, e) ==
  LET j == JLoad(e.files)
      v == [i \in 1..Len(e.ask) |-> Find(j, e.ask[i])]
  IN IF j.fail = Fine THEN [ok |-> e.r = [v |-> v], exp |-> v, st |-> z]
     ELSE [ok |-> "E" \in DOMAIN e.r /\ e.r.E = "DomainError" /\ IF j.any THEN EndsIn(e.r.b, j.fail) ELSE e.r.b = j.fail, exp |-> j.fail, st |-> z]
=============================================================================
