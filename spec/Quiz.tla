--------------------------------- MODULE Quiz ---------------------------------
(* kanjiQuiz: arguments, prompts, kanji details, list quizzes, group quizzes.  *)
(* Context c: D, z (kanji data), g (groups), words (compound words in load     *)
(* order: [n, y, g, k (its kanji), cp (code points of what is shown)]).        *)
(* Session s: in (input lines still to be read), out (all text printed so      *)
(* far), a (last answer), fail (fatal error), term (input is a terminal).      *)
(* Where the program chooses at random the event carries the choices that were *)
(* observed (h); they are checked to be possible ones.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
GD == INSTANCE Groups
KD == INSTANCE KanjiData
UC == INSTANCE CharClass
P == INSTANCE Choice
W == INSTANCE DisplayWidth
T == INSTANCE Text
Num == INSTANCE KanjiNumbers

Star == 42
Quote == 39
Comma == 44
Dash == 45
Dot == 46
Slash == 47
N2(x) == ToString(x)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
SetOf(q) == {q[i] : i \in 1..Len(q)}
Unique(q) == \A i \in 1..Len(q) : \A j \in 1..(i - 1) : q[i] # q[j]

\* ---------------------------------------------------------------- transitions
\* p: pos (questions before the current one), ok, wrong (positions of mistakes), show (meanings), visit (questions begun),
\* over (quit), answers, mode, entry (group quizzes), fresh (the question is to be shown)
PStart(first, show) == [pos |-> IF first = 0 THEN 0 ELSE first - 1, ok |-> 0, wrong |-> <<>>, show |-> show, visit |-> 1, over |-> FALSE,
                        answers |-> <<>>, mode |-> "ask", entry |-> 0, fresh |-> TRUE]
MoveTo(p, n) == [p EXCEPT !.pos = n, !.visit = @ + 1, !.answers = <<>>, !.fresh = TRUE]
Hit(p) == MoveTo([p EXCEPT !.ok = @ + 1], p.pos + 1)
Miss(p) == MoveTo([p EXCEPT !.wrong = Append(@, p.pos + 1)], p.pos + 1)
\* answers that move on or change the display
Common(p, a) == CASE a = Dash -> [p EXCEPT !.show = ~@, !.fresh = TRUE] [] a = Dot -> MoveTo(p, p.pos + 1) [] a = Comma -> MoveTo(p, p.pos - 1) [] a = Slash -> [p EXCEPT !.over = TRUE]
BaseCodes(p, review) == {Dash, Dot, Slash} \cup (IF review /\ p.pos > 0 THEN {Comma} ELSE {})
\* list quiz: n choices 1.., the correct one is 'right'
LCodes(p, review, n) == BaseCodes(p, review) \cup (IF review THEN {} ELSE 49..(48 + n))
LNext(p, a, right) == IF a \in {Dash, Dot, Comma, Slash} THEN Common(p, a) ELSE IF a = 48 + right THEN Hit(p) ELSE Miss(p)
\* group quiz: the readings are a, b, ... z, A, B, ...
Letter(i) == IF i <= 26 THEN 96 + i ELSE 64 + i - 26
IndexOf(c) == IF c >= 97 THEN c - 96 ELSE c - 64 + 26
Letters(n) == {Letter(i) : i \in 1..n}
Left(p, n) == Letters(n) \ SetOf(p.answers)
GCodes(p, review, n) ==
  CASE p.mode = "pick" -> SetOf(p.answers)
    [] p.mode = "renew" -> Left(p, n) \cup {p.answers[p.entry]}
    [] OTHER -> BaseCodes(p, review) \cup (IF review THEN {} ELSE Left(p, n)) \cup (IF p.answers = <<>> THEN {} ELSE {Star, Quote})
GNext(p, a) ==
  CASE p.mode = "pick" -> [p EXCEPT !.mode = "renew", !.entry = CHOOSE i \in 1..Len(p.answers) : p.answers[i] = a]
    [] p.mode = "renew" -> [p EXCEPT !.mode = "ask", !.answers[p.entry] = a, !.entry = 0]
    [] a \in {Dash, Dot, Comma, Slash} -> Common(p, a)
    [] a = Quote -> [p EXCEPT !.fresh = TRUE]
    [] a = Star -> IF Len(p.answers) = 1 THEN [p EXCEPT !.mode = "renew", !.entry = 1] ELSE [p EXCEPT !.mode = "pick"]
    [] OTHER -> [p EXCEPT !.answers = Append(@, a)]
\* how many of the answers (one for each of the names q) pick a reading that fits (y: names in the order of the readings)
FitCount(z, q, y, p) == Cardinality({i \in 1..Len(q) : LET m == z.recs[q[i]]
                                                           w == z.recs[y[IndexOf(p.answers[i])]] IN m.reading = w.reading /\ (p.show => m.meaning = w.meaning)})

\* ---------------------------------------------------------------- prompts
Say(s, t) == [s EXCEPT !.out = @ \o t]
Halt(s, m) == [s EXCEPT !.fail = m]
Ok(s) == s.fail = ""
I(ch, d) == [c |-> T!Ord(ch), d |-> d]
QuitItem == [c |-> Slash, d |-> "quit"]
RECURSIVE InsertAll(_, _)
InsertAll(q, more) == IF more = <<>> THEN q ELSE InsertAll(P!Insert(q, Head(more)), Tail(more))
RECURSIVE Plain(_, _)
Plain(q, S) == IF S = {} THEN q ELSE LET x == CHOOSE x \in S : TRUE IN Plain(P!Insert(q, [c |-> x, d |-> ""]), S \ {x})
Codes(S, described) == Plain(InsertAll(<<>>, described), S)
\* asks until one of the choices q is given; an empty answer is the default if there is one
Ask(s, msg, q, def) ==
  LET k == P!Ask(s.in, q, def, 0)
      p == P!Prompt(msg, q, def)
      eof == k.in = <<>> /\ k.n > Len(s.in)
  IN IF s.term THEN (IF eof THEN Halt(Say([s EXCEPT !.in = <<>>], T!Times(p \o "\n", k.n - 1) \o p), "end of input") ELSE Say([s EXCEPT !.in = k.in, !.a = k.a[1]], T!Times(p \o "\n", k.n)))
     ELSE LET s1 == Say([s EXCEPT !.in = k.in], T!Times(p, k.n)) IN IF k.a = <<>> THEN Halt(s1, "end of input") ELSE [s1 EXCEPT !.a = k.a[1]]
AskQ(s, msg, items, S, def) == Ask(s, msg, Codes(S, Append(items, QuitItem)), def)
Log(heading) == IF heading THEN ">>>\n>>> " ELSE ">>> "

\* ---------------------------------------------------------------- descriptions
TypeText(k) == ", " \o k.type \o (IF k.extra = "" THEN "" ELSE " (" \o k.extra \o ")")
Legend == ".=常用 '=JLPT \"=Freq ^=人名用 ~=LinkJ %=LinkO +=Extra @=検定 #=1級 *=Ucd"
LegendText(f) ==
  LET q == (IF KD!Bit(f, 16) THEN <<" N[1-5]=JLPT Level">> ELSE <<>>) \o (IF KD!Bit(f, 256) THEN <<" K[1-10]=Kentei Kyu">> ELSE <<>>)
           \o (IF KD!Bit(f, 8) THEN <<" G[1-6]=Grade (S=Secondary School)">> ELSE <<>>)
  IN Log(FALSE) \o "Legend:\nFields:" \o T!Join(q, ",") \o "\nSuffix: " \o Legend \o "\n"
MeaningText(k, line, show) == (IF show /\ k.meaning # "" THEN (IF line THEN "\n    Meaning: " ELSE " : ") \o k.meaning ELSE "") \o "\n"
PerLine == 3
MaxCol == 30
RECURSIVE SumW(_, _)
SumW(q, i) == IF i > Len(q) THEN 0 ELSE W!Width(q[i]) + SumW(q, i + 1)
Shown(w) == w.n \o "（" \o w.y \o "）"
WordWidth(w) == SumW(w.cp, 1)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
ColWidth(q, j) == LET m == MaxOf({WordWidth(q[i]) + 2 : i \in {i \in 1..Len(q) : (i - 1) % PerLine = j}}) IN IF m < MaxCol THEN m ELSE MaxCol
PadTo(t, have, want) == t \o T!Times(" ", want - have)
WordList(title, q) ==
  "    " \o title \o ":" \o
  (IF Len(q) <= PerLine THEN T!Join([i \in 1..Len(q) |-> " " \o Shown(q[i])], "")
   ELSE LET cw == [j \in 0..(PerLine - 1) |-> ColWidth(q, j)] IN
        " " \o N2(Len(q)) \o T!Join([i \in 1..Len(q) |-> (IF i % PerLine = 1 THEN "\n" ELSE "") \o PadTo(Shown(q[i]), WordWidth(q[i]), cw[(i - 1) % PerLine])], "")) \o "\n"
WordsText(c, k) ==
  LET q == SelectSeq(c.words, LAMBDA w : KD!In(w.k, k.n))
      same == SelectSeq(q, LAMBDA w : w.g = k.grade)
      other == SelectSeq(q, LAMBDA w : w.g # k.grade)
  IN (IF q = <<>> THEN ""
      ELSE IF k.grade = "None" \/ Len(q) <= PerLine \/ other = <<>> THEN WordList(" Jukugo", q)
      ELSE WordList("Same Grade Jukugo", same) \o WordList("Other Grade Jukugo", other)) \o "\n"
NumWords(q) == T!Join([i \in 1..Len(q) |-> " " \o N2(q[i])], "")
SimilarText(c, k) ==
  IF k.n \notin DOMAIN c.g.p.map THEN ""
  ELSE LET g == c.g.p.list[c.g.p.map[k.n][1]]
           q == KD!SortBy(c.z, SetOf(g.members) \ {k.n}, "qual")
       IN IF g.kind = "Reading" THEN "" ELSE "    Similar:" \o T!Join([i \in 1..Len(q) |-> " " \o KD!QName(c.z.recs[q[i]])], "") \o "\n"
CategoryText(c, k) ==
  IF k.n \notin DOMAIN c.g.m.map THEN ""
  ELSE LET q == c.g.m.map[k.n] IN
       (IF Len(q) = 1 THEN "   Category: " ELSE " Categories: ") \o T!Join([i \in 1..Len(q) |-> "[" \o c.g.m.list[q[i]].name \o "]"], ", ") \o "\n"
ReviewText(c, k) ==
  "    Reading: " \o k.reading \o "\n" \o SimilarText(c, k)
  \o (IF k.moro \in {"", "0"} THEN "" ELSE "  Morohashi: " \o k.moro \o "\n")
  \o (IF k.nelson = <<>> THEN "" ELSE (IF Len(k.nelson) = 1 THEN "  Nelson ID:" ELSE " Nelson IDs:") \o NumWords(k.nelson) \o "\n")
  \o CategoryText(c, k) \o WordsText(c, k)
\* everything about one name
AllInfo == 511
DetailText(c, n, legend) ==
  LET i == KD!NameInfo(c.z, n)
      u == KD!UcdName(c.z, n)
      q == c.z.u.recs[u]
      f == KD!FindByName(c.z, n)
      k == c.z.recs[f]
  IN (IF legend THEN LegendText(AllInfo) \o "Sources: G=China / Singapore, H=Hong Kong, J=Japan, K=Korea, T=Taiwan, V=Vietnam\n\n" ELSE "")
     \o n \o " " \o KD!UniSq(i.cp)
     \o (IF u = "" THEN " --- Not found in 'ucd.txt'\n"
         ELSE ", Blk " \o q.block \o ", Ver " \o q.version \o (IF q.sources = "" THEN "" ELSE ", Sources " \o q.sources \o (IF q.jsource = "" THEN "" ELSE " (" \o q.jsource \o ")"))
              \o (IF f = "" THEN " --- Kanji not loaded'\n"
                  ELSE TypeText(k) \o "\n" \o KD!InfoText(c.D, k, AllInfo) \o MeaningText(k, TRUE, TRUE) \o ReviewText(c, k)))
ListText(c, q, name, id) ==
  (IF Len(q) = 1 THEN "" ELSE (IF q = <<>> THEN "" ELSE LegendText(AllInfo) \o "\n") \o "Found " \o N2(Len(q)) \o " matches for " \o name \o " ID " \o id \o (IF q = <<>> THEN "\n" ELSE ":\n\n"))
  \o T!Join([i \in 1..Len(q) |-> DetailText(c, q[i], Len(q) = 1)], "")

\* ---------------------------------------------------------------- both kinds of quizzes
Options(p, total, review) == <<I("-", IF p.show THEN "hide meanings" ELSE "show meanings"), I(".", IF p.pos + 1 = total THEN "finish" ELSE IF review THEN "next" ELSE "skip")>>
                             \o (IF review /\ p.pos > 0 THEN <<I(",", "prev")>> ELSE <<>>)
QuestionText(p, total, review) == (IF review THEN "\n" ELSE "\nQuestion ") \o N2(p.pos + 1) \o "/" \o N2(total) \o ":  "
StartText(total, review) == Log(TRUE) \o "Starting " \o (IF review THEN "review" ELSE "quiz") \o " for " \o N2(total) \o " "
TooFar(first, total) == IF first > total THEN "entry num '" \o N2(first) \o "' is larger than total questions: " \o N2(total) ELSE ""
CorrectText(p) == "  Correct! (" \o N2(p.ok + 1) \o "/" \o N2(p.pos + 1) \o ")\n"
ScoreText(p, names) ==
  LET skipped == p.pos - p.ok - Len(p.wrong) IN
  "\nFinal score: " \o N2(p.ok) \o "/" \o N2(p.pos) \o
  (IF p.pos = 0 THEN "" ELSE (IF skipped > 0 THEN ", skipped: " \o N2(skipped) ELSE "") \o
     (IF p.wrong # <<>> THEN " - mistakes:" \o T!Join([i \in 1..Len(p.wrong) |-> " " \o names[p.wrong[i]]], "") ELSE IF skipped = 0 THEN " - Perfect!" ELSE "")) \o "\n"
Finish(s, p, names, review) == IF review THEN s ELSE Say(s, ScoreText(p, names))
Unexplained(s, what) == [s EXCEPT !.fail = "unexplained: " \o what]
\* order in which a list is asked: as given, reversed, or any (observed prefix of a) permutation
Ordered(q, order, seen) == CASE order = "b" -> q [] order = "e" -> Rev(q) [] order = "r" -> seen
FairOrder(q, order, seen) == order # "r" \/ (Len(seen) = Len(q) /\ LET k == SelectSeq(seen, LAMBDA x : x # "") IN Unique(k) /\ SetOf(k) \subseteq SetOf(q))

\* ---------------------------------------------------------------- list quizzes
\* L: order (names), all (names of the list), review, style, n (choices), fields, rnd (choices shuffled), h (choices seen at each visit)
Readings(c, q) == {c.z.recs[q[i]].reading : i \in 1..Len(q)}
ChoiceName(c, L, t) == IF L.style = "k" THEN t ELSE c.z.recs[t].reading
RightText(c, L, n) == IF L.style = "k" THEN c.z.recs[n].reading ELSE n
FairChoices(c, L, n, t) ==
  /\ Len(t) = L.n
  /\ SetOf(t) \subseteq IF L.style = "k" THEN L.readings ELSE SetOf(L.all)
  /\ Unique([i \in 1..Len(t) |-> ChoiceName(c, L, t[i])])
  /\ IF L.rnd THEN KD!In(t, RightText(c, L, n)) ELSE t[1] = RightText(c, L, n)
ListQuestion(c, L, p, k, t) ==
  QuestionText(p, Len(L.order), L.review)
  \o (IF L.style = "k" THEN k.n \o (LET x == KD!InfoText(c.D, k, L.fields) IN IF x = "" THEN "" ELSE "  " \o x) \o (IF L.review THEN TypeText(k) ELSE "") ELSE "Reading:  " \o k.reading)
  \o MeaningText(k, L.review, p.show)
  \o (IF L.review THEN ReviewText(c, k) ELSE T!Join([i \in 1..Len(t) |-> "    " \o N2(i) \o ".  " \o t[i] \o "\n"], ""))
ListPrompt(L) == IF L.review THEN "  Select" ELSE IF L.style = "k" THEN "  Select correct reading" ELSE "  Select correct kanji"
RECURSIVE ListLoop(_, _, _, _)
ListLoop(c, L, s, p) ==
  IF p.over \/ p.pos >= Len(L.order) THEN Finish(s, p, L.order, L.review)
  ELSE LET n == L.order[p.pos + 1]
           t == IF L.review \/ p.visit > Len(L.h) THEN <<>> ELSE L.h[p.visit]
       IN IF n = "" THEN Unexplained(s, "question " \o N2(p.pos + 1))
          ELSE IF ~L.review /\ ~FairChoices(c, L, n, t) THEN Unexplained(s, "choices " \o ToString(t) \o " for " \o n)
          ELSE LET k == c.z.recs[n]
                   right == IF L.review THEN 0 ELSE CHOOSE i \in 1..Len(t) : t[i] = RightText(c, L, n)
                   g == AskQ(Say(s, ListQuestion(c, L, p, k, t)), ListPrompt(L), Options(p, Len(L.order), L.review), IF L.review THEN {} ELSE 49..(48 + L.n), <<>>)
                   say == IF g.a \in {Dash, Dot, Comma, Slash} THEN "" ELSE IF g.a = 48 + right THEN CorrectText(p) ELSE "  Incorrect (correct answer is " \o N2(right) \o ")\n"
               IN IF ~Ok(g) THEN Finish(g, p, L.order, L.review) ELSE ListLoop(c, L, Say(g, say), LNext(p, g.a, right))
Min(a, b) == IF a < b THEN a ELSE b
ListQuiz(c, s, o, q, fields, n, style) ==
  LET review == o.mode = "r"
      mute == {i \in 1..Len(q) : c.z.recs[q[i]].reading = ""}
      L == [order |-> Ordered(q, o.order, o.h.order), all |-> q, readings |-> Readings(c, q), review |-> review, style |-> style, n |-> Min(n, Cardinality(Readings(c, q))),
            fields |-> fields, rnd |-> o.rnd, h |-> o.h.a]
  IN IF mute # {} THEN Halt([s EXCEPT !.early = ~review], q[CHOOSE i \in mute : \A j \in mute : i <= j] \o " has no reading")
     ELSE IF TooFar(o.first, Len(q)) # "" THEN Halt([s EXCEPT !.early = ~review], TooFar(o.first, Len(q)))
     ELSE IF ~FairOrder(q, o.order, o.h.order) THEN Unexplained(s, "order")
     ELSE ListLoop(c, L, Say([s EXCEPT !.runs = @ + 1], StartText(Len(q), review) \o "kanji\n>>>\n" \o (IF style = "k" THEN LegendText(fields) ELSE "")), PStart(o.first, o.show))

\* ---------------------------------------------------------------- group quizzes
Includes(k, kinds) == k.reading # "" /\ (k.type = "Jouyou" \/ (kinds >= 2 /\ k.level # "None") \/ (kinds >= 3 /\ k.freq # 0) \/ kinds >= 4)
Members(c, g, kinds) == SelectSeq(g.members, LAMBDA n : Includes(c.z.recs[n], kinds))
Marks == <<"：カ", "：サ", "：タ", "：ハ", "：ヤ">>
FirstFrom(list, i, mark) == LET S == {j \in i..Len(list) : T!Has(list[j].name, mark)} IN IF S = {} THEN Len(list) + 1 ELSE CHOOSE j \in S : \A m \in S : j <= m
\* the groups of a part (0 = all, 1.. = the parts of the pattern groups) with two or more members to ask
Part(list, part) ==
  IF part = 0 THEN list
  ELSE LET from == IF part = 1 THEN 1 ELSE FirstFrom(list, 1, Marks[part - 1])
           to == IF part = 6 THEN Len(list) ELSE FirstFrom(list, IF part = 1 THEN 1 ELSE from + 1, Marks[part]) - 1
       IN SubSeq(list, from, to)
GroupsFor(c, list, part, kinds) == SelectSeq(Part(list, part), LAMBDA g : Len(Members(c, g, kinds)) >= 2)
PinyinWidth == 12
EntryWidth == 22
\* the other kind of group a kanji is in: pattern groups for meaning groups and the other way round
OtherText(c, meaning, n) == LET g == IF meaning THEN c.g.p ELSE c.g.m IN
  IF n \in DOMAIN g.map THEN (IF meaning THEN "p:" ELSE "m:") \o g.list[g.map[n][1]].num ELSE ""
NameWidth(k) == IF k.variant THEN Len(k.n) ELSE 2
EntryText(c, G, p, q, y, i) ==
  LET k == c.z.recs[q[i]]
      w == c.z.recs[y[i]]
      pin == IF k.pinyin = "" THEN "" ELSE "  (" \o k.pinyin \o ")"
      other == IF G.review THEN OtherText(c, G.meaning, k.n) ELSE ""
      let == Letter(i)
      at == {j \in 1..Len(p.answers) : p.answers[j] = let}
      num == N2(i)
  IN T!Times(" ", 4 - Len(num)) \o num \o ":  "
     \o PadTo(KD!QName(k) \o PadTo(pin, Len(pin), PinyinWidth) \o other, 2 + 1 + PinyinWidth + Len(other), EntryWidth)
     \o (IF G.review \/ at = {} THEN "    " ELSE LET j == N2(CHOOSE j \in at : TRUE) IN T!Times(" ", 2 - Len(j)) \o j \o "->")
     \o (IF G.review THEN " " ELSE T!Chr(let)) \o ":  " \o w.reading \o MeaningText(w, FALSE, p.show)
GroupText(c, G, p, g, q, y) ==
  QuestionText(p, Len(G.order), G.review) \o GD!Show(g) \o ", "
  \o (IF Len(q) = Len(g.members) THEN N2(Len(q)) ELSE "showing " \o N2(Len(q)) \o " out of " \o N2(Len(g.members))) \o " members\n"
  \o T!Join([i \in 1..Len(q) |-> EntryText(c, G, p, q, y, i)], "") \o "\n"
Assigned(p) == IF p.answers = <<>> THEN "" ELSE "   " \o T!Join([i \in 1..Len(p.answers) |-> " " \o N2(i) \o "->" \o T!Chr(p.answers[i])], "") \o "\n"
Perm(q, of) == Len(q) = Len(of) /\ Unique(q) /\ SetOf(q) = SetOf(of)
GroupAsk(s, G, p, n) ==
  CASE p.mode = "pick" -> Ask(s, "    Answer to edit: ", Codes(SetOf(p.answers), <<>>), <<>>)
    [] p.mode = "renew" -> Ask(s, "    New reading for Entry: " \o N2(p.entry), Codes(Left(p, n) \cup {p.answers[p.entry]}, <<>>), <<p.answers[p.entry]>>)
    [] OTHER -> AskQ(Say(s, Assigned(p)), IF G.review THEN "  Select" ELSE "  Reading for: " \o N2(Len(p.answers) + 1),
                     Options(p, Len(G.order), G.review) \o (IF p.answers = <<>> THEN <<>> ELSE <<I("*", "edit"), I("'", "refresh")>>), IF G.review THEN {} ELSE Left(p, n), <<>>)
GNames(G) == [i \in 1..Len(G.order) |-> IF G.order[i] = "" THEN "" ELSE G.by[G.order[i]].name]
RECURSIVE GroupLoop(_, _, _, _)
GroupLoop(c, G, s, p) ==
  IF p.over \/ p.pos >= Len(G.order) THEN Finish(s, p, GNames(G), G.review)
  ELSE IF G.order[p.pos + 1] = "" THEN Unexplained(s, "group " \o N2(p.pos + 1))
  ELSE LET g == G.by[G.order[p.pos + 1]]
           m == Members(c, g, G.kinds)
           shuffled == G.rnd /\ ~G.review
           q == IF ~shuffled THEN m ELSE IF p.visit <= Len(G.h.a) THEN G.h.a[p.visit] ELSE <<>>
           y == IF ~shuffled THEN m ELSE IF p.visit <= Len(G.h.b) THEN G.h.b[p.visit] ELSE <<>>
       IN IF ~Perm(q, m) \/ ~Perm(y, m) THEN Unexplained(s, "members of " \o g.name)
          ELSE IF Len(p.answers) = Len(m) /\ p.mode = "ask"
          THEN LET fit == FitCount(c.z, q, y, p) IN
               IF fit = Len(m) THEN GroupLoop(c, G, Say(s, CorrectText(p)), Hit(p))
               ELSE GroupLoop(c, G, Say(s, "  Incorrect (got " \o N2(fit) \o " right out of " \o N2(Len(m)) \o ")\n"), Miss(p))
          ELSE LET a == GroupAsk(IF p.fresh THEN Say(s, GroupText(c, G, p, g, q, y)) ELSE s, G, p, Len(m))
               IN IF ~Ok(a) THEN Finish(a, p, GNames(G), G.review) ELSE GroupLoop(c, G, a, GNext([p EXCEPT !.fresh = FALSE], a.a))
GroupQuiz(c, s, o, meaning, kinds) ==
  LET list == IF meaning THEN c.g.m.list ELSE c.g.p.list
      review == o.mode = "r"
      s1 == IF meaning THEN s ELSE AskQ(s, "Pattern name", <<I("1", "ア"), I("2", "カ"), I("3", "サ"), I("4", "タ、ナ"), I("5", "ハ、マ"), I("6", "ヤ、ラ、ワ")>>, {}, <<49>>)
      q == GroupsFor(c, list, IF meaning THEN 0 ELSE s1.a - 48, kinds)
      titles == [i \in 1..Len(q) |-> GD!Show(q[i])]
      G == [order |-> Ordered(titles, o.order, o.h.order), by |-> [t \in SetOf(titles) |-> q[CHOOSE i \in 1..Len(q) : titles[i] = t]],
            review |-> review, meaning |-> meaning, kinds |-> kinds, rnd |-> o.rnd, h |-> o.h]
      early == [s1 EXCEPT !.early = ~review]
  IN IF list = <<>> THEN Halt([s EXCEPT !.early = FALSE], "empty group list")
     ELSE IF ~Ok(s1) THEN early
     ELSE IF ~meaning /\ s1.a = Slash THEN (IF o.first = 0 THEN Finish(s1, PStart(0, FALSE), <<>>, review) ELSE early)
     ELSE IF TooFar(o.first, Len(q)) # "" THEN Halt(early, TooFar(o.first, Len(q)))
     ELSE IF ~FairOrder(titles, o.order, o.h.order) THEN Unexplained(s1, "order")
     ELSE GroupLoop(c, G, Say([s1 EXCEPT !.runs = @ + 1], StartText(Len(q), review) \o (IF meaning THEN "Meaning" ELSE "Pattern") \o " groups\n" \o (IF kinds >= 2 THEN Log(FALSE) \o "  " \o Legend \o "\n" ELSE "")),
                    PStart(o.first, o.show))

\* ---------------------------------------------------------------- choosing a quiz
\* o: mode, order ("" = not known yet), type, list (<<>> or a code), first, show, rnd, h
FreqItems == <<I("0", "top 250 Kanji")>>
GradeItems == <<I("s", "Secondary School")>>
KyuItems == <<I("a", "10"), I("b", "準１級"), I("c", "準２級")>>
LevelItems == <<I("1", "N1"), I("2", "N2"), I("3", "N3"), I("4", "N4"), I("5", "N5")>>
KindItems == <<I("1", "Jōyō"), I("2", "1+JLPT"), I("3", "2+Freq."), I("4", "all")>>
Given(s, code, msg, items, S, def) == IF code # <<>> THEN [s EXCEPT !.a = code[1]] ELSE AskQ(s, msg, items, S, def)
KyuName(ch) == CASE ch = "a" -> "K10" [] ch = "b" -> "KJ1" [] ch = "c" -> "KJ2" [] OTHER -> "K" \o ch
Exclude(bit) == AllInfo - bit
Lists(c, s, o, bit, q) ==
  IF o.mode = "r" THEN ListQuiz(c, s, o, q, Exclude(bit), 1, "k")
  ELSE LET n == AskQ(s, "Number of choices", <<>>, 50..57, <<52>>)
           y == AskQ(n, "Quiz style", <<I("k", "kanji to reading"), I("r", "reading to kanji")>>, {}, <<107>>)
       IN IF ~Ok(n) \/ n.a = Slash THEN n ELSE IF ~Ok(y) \/ y.a = Slash THEN y ELSE ListQuiz(c, y, o, q, Exclude(bit), n.a - 48, T!Chr(y.a))
Chosen(c, s, o, type) ==
  LET pick == CASE type = "f" -> Given(s, o.list, "Choose frequency list", FreqItems, 49..57, <<>>)
                [] type = "g" -> Given(s, o.list, "Choose grade", GradeItems, 49..54, <<54>>)
                [] type = "k" -> Given(s, o.list, "Choose kyu", KyuItems, 49..57, <<50>>)
                [] type = "l" -> Given(s, o.list, "Choose level", LevelItems, {}, <<>>)
                [] OTHER -> Given(s, o.list, "Kanji type", KindItems, {}, <<50>>)
      ch == T!Chr(pick.a)
  IN IF ~Ok(pick) \/ pick.a = Slash THEN pick
     ELSE CASE type = "f" -> Lists(c, pick, o, 32, KD!FreqList(c.z, pick.a - 48))
            [] type = "g" -> Lists(c, pick, o, 8, c.z.grades[IF ch = "s" THEN "S" ELSE "G" \o ch])
            [] type = "k" -> Lists(c, pick, o, 256, c.z.kyus[KyuName(ch)])
            [] type = "l" -> Lists(c, pick, o, 16, c.z.levels["N" \o ch])
            [] OTHER -> GroupQuiz(c, pick, o, type = "m", pick.a - 48)
TypeItems == <<I("f", "freq"), I("g", "grade"), I("k", "kyu"), I("l", "JLPT"), I("m", "meaning"), I("p", "pattern")>>
Start(c, s, o) ==
  LET m == IF o.mode # "" THEN [s EXCEPT !.a = T!Ord(o.mode)] ELSE AskQ(s, "Mode", <<I("r", "review"), I("t", "test")>>, {}, <<116>>)
      r == IF o.order # "" THEN [m EXCEPT !.a = T!Ord(o.order)] ELSE AskQ(m, "List order", <<I("b", "from beginning"), I("e", "from end"), I("r", "random")>>, {}, <<114>>)
      t == IF o.type # <<>> THEN [r EXCEPT !.a = o.type[1]] ELSE AskQ(r, "Type", TypeItems, {}, <<103>>)
  IN IF ~Ok(m) \/ m.a = Slash THEN m ELSE IF ~Ok(r) THEN r ELSE IF r.a = Slash THEN [r EXCEPT !.loose = TRUE] ELSE IF ~Ok(t) \/ t.a = Slash THEN t
     ELSE Chosen(c, t, [o EXCEPT !.mode = T!Chr(m.a), !.order = T!Chr(r.a)], T!Chr(t.a))

\* ---------------------------------------------------------------- arguments
\* an argument: t (text), b (bytes). Result: what to do: "none" (a quiz as described), "help", "show" (text out)
AFresh == [mode |-> "", order |-> "", type |-> <<>>, list |-> <<>>, first |-> 0, show |-> FALSE, fail |-> "", out |-> "", do |-> "quiz", ended |-> FALSE]
AFail(a, m) == [a EXCEPT !.fail = m, !.do = "fail"]
UseHelp == ", use -h for help"
AllDigits(t) == T!AllDigits(t)
Small(t) == LET x == T!Canon(t) IN ~T!NumLess("65535", x)
ModeArg(a, t) ==
  LET rest == T!From(t, 3)
      sign == IF rest = "" THEN "" ELSE IF T!Ch(rest, 1) \in {"-", "+"} THEN T!Ch(rest, 1) ELSE ""
      num == T!From(rest, 1 + Len(sign))
      opt == SubSeq(t, 1, 2)
      b == [a EXCEPT !.mode = T!Ch(t, 2)]
  IN IF a.mode # "" THEN AFail(a, "only one mode (-r or -t) can be specified" \o UseHelp)
     ELSE IF rest = "" THEN [b EXCEPT !.first = 0]
     ELSE IF rest = "0" THEN [b EXCEPT !.order = "r", !.first = 0]
     ELSE IF num = "" \/ ~AllDigits(num) THEN AFail(a, "invalid format for '" \o opt \o "'" \o UseHelp)
     ELSE IF ~Small(num) THEN AFail(a, "value for '" \o opt \o "' exceeds limit")
     ELSE [b EXCEPT !.order = IF sign = "-" THEN "e" ELSE "b", !.first = T!NumOf(T!Canon(num))]
ListsOf(ch) == CASE ch = "f" -> 48..57 [] ch = "g" -> 49..54 \cup {115} [] ch = "k" -> 49..57 \cup 97..99 [] ch = "l" -> 49..53 [] OTHER -> 49..52
TypeArg(a, t, b) ==
  LET ch == T!Ch(t, 2) IN
  IF a.type # <<>> THEN AFail(a, "only one quiz type can be specified" \o UseHelp)
  ELSE IF Len(b) = 2 THEN [a EXCEPT !.type = <<T!Ord(ch)>>]
  ELSE IF Len(b) = 3 /\ b[3] \in ListsOf(ch) THEN [a EXCEPT !.type = <<T!Ord(ch)>>, !.list = <<b[3]>>]
  ELSE AFail(a, "invalid format for '" \o SubSeq(t, 1, 2) \o "'" \o UseHelp)
IsHex(t) == \A i \in 1..Len(t) : T!IsDigit(T!Ch(t, i)) \/ T!ToLower1(T!Ch(t, i)) \in {"a", "b", "c", "d", "e", "f"}
RECURSIVE HexNum(_)
HexNum(t) == IF t = "" THEN 0 ELSE 16 * HexNum(SubSeq(t, 1, Len(t) - 1)) + T!HexVal(T!ToUpper1(T!Ch(t, Len(t))))
NameOfCp(z, n) == CHOOSE x \in DOMAIN z.names : z.names[x].cp = <<n>>
AShow(a, t) == [a EXCEPT !.do = "show", !.out = t]
\* how a kanji may be named
KanjiArg(c, a, t, b) ==
  LET rest == T!From(t, 2)
      freq == KD!ByFreq(c.z, T!NumOf(T!Canon(t)))
      moro == KD!ByMoro(c.z, rest)
      n == IF rest = "" \/ ~AllDigits(rest) \/ ~Small(rest) THEN 0 ELSE T!NumOf(T!Canon(rest))
  IN IF AllDigits(t) THEN (IF t = "" \/ ~Small(t) THEN AFail(a, "invalid frequency '" \o t \o "'")
                           ELSE IF freq = "" THEN AFail(a, "Kanji not found for frequency '" \o t \o "'") ELSE AShow(a, DetailText(c, freq, TRUE)))
     ELSE IF T!StartsWith(t, "m") THEN (IF KD!Fail(moro) THEN AFail(a, moro.m) ELSE AShow(a, ListText(c, moro.v, "Morohashi", Num!MText(Num!MParse(rest).v))))
     ELSE IF T!StartsWith(t, "n") THEN (IF rest = "" \/ ~AllDigits(rest) THEN AFail(a, "Nelson ID '" \o rest \o "' is non-numeric")
                                        ELSE IF ~Small(rest) THEN AFail(a, "invalid Nelson ID '" \o rest \o "'")
                                        ELSE AShow(a, ListText(c, KD!ByNelson(c.z, n), "Nelson", rest)))
     ELSE IF T!StartsWith(t, "u") THEN (IF Len(rest) \notin {4, 5} \/ (Len(rest) = 5 /\ T!Ch(rest, 1) \notin {"1", "2"}) \/ ~IsHex(rest) THEN AFail(a, "Unicode value '" \o rest \o "' is invalid")
                                        ELSE AShow(a, DetailText(c, NameOfCp(c.z, HexNum(rest)), TRUE)))
     ELSE IF UC!One("kanji", b) THEN AShow(a, DetailText(c, t, TRUE))
     ELSE AFail(a, "unrecognized 'kanji' value '" \o t \o "'" \o UseHelp)
RECURSIVE ParseArgs(_, _, _, _)
\* arguments are used one after another; -data (with its value), -debug and -info belong to the data
ParseArgs(c, a, args, i) ==
  IF i > Len(args) \/ a.do # "quiz" THEN a
  ELSE LET t == args[i].t
           b == args[i].b
           next(x) == ParseArgs(c, x, args, i + 1)
           ch == IF Len(t) >= 2 THEN T!Ch(t, 2) ELSE ""
       IN CASE t = "-data" -> ParseArgs(c, a, args, i + 2)
            [] t \in {"-debug", "-info"} -> next(a)
            [] a.ended \/ ~T!StartsWith(t, "-") \/ Len(b) < 2 -> KanjiArg(c, a, t, b)
            [] t = "-h" -> [a EXCEPT !.do = "help"]
            [] t = "--" -> next([a EXCEPT !.ended = TRUE])
            [] t = "-s" -> next([a EXCEPT !.show = TRUE])
            [] ch \in {"r", "t"} -> next(ModeArg(a, t))
            [] ch \in {"f", "g", "k", "l", "m", "p"} -> next(TypeArg(a, t, b))
            [] OTHER -> AFail(a, "illegal option '" \o t \o "'" \o UseHelp)

\* ---------------------------------------------------------------- a run of the program
HelpText == "kanjiQuiz [-hs] [-f[1-5] | -g[1-6s] | -k[1-9a-c] | -l[1-5] -m[1-4] | -p[1-4]]\n" \o
  "          [-r[num] | -t[num]] [kanji]\n" \o
  "    -h   show this help message for command-line options\n" \o
  "    -s   show English meanings by default (can be toggled on/off later)\n" \o
  "\n" \o
  "  The following options allow choosing the quiz/review type optionally followed\n" \o
  "  by question list type (grade, level, etc.) instead of being prompted:\n" \o
  "    -f   'frequency' (optional frequency group '0-9')\n" \o
  "    -g   'grade' (optional grade '1-6', 's' = Secondary School)\n" \o
  "    -k   'kyu' (optional Kentei Kyu '1-9', 'a' = 10, 'b' = 準１級, 'c' = 準２級)\n" \o
  "    -l   'level' (optional JLPT level number '1-5')\n" \o
  "    -m   'meaning' (optional Kanji type '1-4')\n" \o
  "    -p   'pattern' (optional Kanji type '1-4')\n" \o
  "\n" \o
  "  The following options can be followed by a 'num' to specify where to start in\n" \o
  "  the question list (use negative to start from the end or 0 for random order).\n" \o
  "    -r   review mode\n" \o
  "    -t   test mode\n" \o
  "\n" \o
  "  kanji  show details for a Kanji instead of starting a review or test\n" \o
  "\n" \o
  "Examples:\n" \o
  "  kanjiQuiz -f        # start 'frequency' quiz (prompts for 'bucket' number)\n" \o
  "  kanjiQuiz -r40 -l1  # start 'JLPT N1' review beginning at the 40th entry\n" \o
  "\n" \o
  "Note: 'kanji' can be UTF-8, frequency (between 1 and 2501), 'm' followed by\n" \o
  "Morohashi ID (index in Dai Kan-Wa Jiten), 'n' followed by Classic Nelson ID\n" \o
  "or 'u' followed by Unicode. For example, theses all produce the same output:\n" \o
  "  kanjiQuiz 奉\n" \o
  "  kanjiQuiz 1624\n" \o
  "  kanjiQuiz m5894\n" \o
  "  kanjiQuiz n212\n" \o
  "  kanjiQuiz u5949\n"
\* e: args, in (input lines), h (observed random choices, an entry for each quiz begun), starts (further quizzes: type, list, first, show, rnd)
NoHint == [order |-> <<>>, a |-> <<>>, b |-> <<>>]
Hint(e, s) == IF s.runs < Len(e.h) THEN e.h[s.runs + 1] ELSE NoHint
RECURSIVE Starts(_, _, _, _, _, _)
Starts(c, s, mode, order, e, i) ==
  IF i > Len(e.starts) \/ ~Ok(s) \/ s.early \/ s.loose THEN s
  ELSE LET w == e.starts[i] IN
       Starts(c, Start(c, s, [mode |-> mode, order |-> order, type |-> w.type, list |-> w.list, first |-> w.first, show |-> w.show, rnd |-> w.rnd, h |-> Hint(e, s)]), "", "", e, i + 1)
Run(c, e) ==
  LET a == ParseArgs(c, AFresh, e.args, 1)
      s == [in |-> e.in, out |-> "", a |-> 0, fail |-> "", term |-> e.term, early |-> FALSE, loose |-> FALSE, runs |-> 0]
      \* a quiz type (or a terminal to ask for one) starts a quiz at once
      s1 == Start(c, s, [mode |-> a.mode, order |-> a.order, type |-> a.type, list |-> a.list, first |-> a.first, show |-> a.show, rnd |-> TRUE, h |-> Hint(e, s)])
  IN CASE a.do = "fail" -> [s EXCEPT !.fail = a.fail]
       [] a.do = "help" -> [s EXCEPT !.out = HelpText]
       [] a.do = "show" -> [s EXCEPT !.out = a.out]
       [] a.type # <<>> \/ e.term -> Starts(c, s1, "", "", e, 1)
       [] OTHER -> Starts(c, s, a.mode, a.order, e, 1)
\* (loose: what a quiz keeps when the order is not chosen is not specified)
\* a quiz that ended before its first question may report a score of nothing
EarlyScore(t) == T!StartsWith(t, "\nFinal score: 0/") /\ T!EndsWith(t, "\n")
SameOut(s, t) == t = s.out \/ (s.early /\ T!StartsWith(t, s.out) /\ EarlyScore(T!From(t, Len(s.out) + 1)))
QFresh == [D |-> <<>>, z |-> <<>>, g |-> <<>>, words |-> <<>>]
QApply(c, e) ==
  CASE e.op = "data" -> LET y == KD!Load(e.D) IN [ok |-> y.fail = {} /\ e.r = [v |-> y.errs], exp |-> y.fail \cup KD!SeqSet(y.errs), st |-> [QFresh EXCEPT !.D = e.D, !.z = y]]
    [] e.op = "lists" -> LET g == GD!GLoad(c.z, e.meaning, e.pattern)
                             x == [out |-> "", errs |-> g.errs]
                         IN [ok |-> g.fail = "" /\ e.r = [v |-> x], exp |-> x, st |-> [c EXCEPT !.g = g, !.words = e.words]]
    [] e.op = "run" -> LET s == Run(c, e)
                           x == [out |-> s.out, fail |-> s.fail, rest |-> s.in]
                       IN [ok |-> "v" \in DOMAIN e.r /\ IF (s.loose \/ s.early) /\ e.starts # <<>> THEN T!StartsWith(e.r.v.out, s.out) ELSE e.r.v.fail = s.fail /\ SameOut(s, e.r.v.out) /\ (s.fail = "" /\ ~e.term => e.r.v.rest = s.in), exp |-> x, st |-> c]
=============================================================================
