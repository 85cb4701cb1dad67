------------------------------ MODULE QuizReport ------------------------------
(* What loading the group files and the compound words reports when the kanji  *)
(* data was loaded with -info or -debug ('full'). As for the kanji (see        *)
(* KanjiReport), every count is a count over what was loaded. An event has the *)
(* rows of both group files, or the seven word files (bytes) and the kanji of  *)
(* the words in byte order (keys: bytes b, name n).                            *)
EXTENDS Groups
JU == INSTANCE Jukugo
W == INSTANCE DisplayWidth
N2(n) == ToString(n)
PadL(t, n, w) == T!Times(" ", w - n) \o t
Pad(n, w) == PadL(N2(n), Len(N2(n)), w)
Cat(q) == T!Join(q, "")
L3 == ">>> "
Legend == ".=常用 '=JLPT \"=Freq ^=人名用 ~=LinkJ %=LinkO +=Extra @=検定 #=1級 *=Ucd"
If(c, t) == IF c THEN t ELSE ""
Examples == 12
Head1(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)
QN(z, n) == KD!QName(z.recs[n])
Columns(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i - 1] + W!Width(q[i]) IN f[Len(q)]

\* one group; cp: the code points of its name
MeaningLine(z, g, cp) ==
  g.name \o (CASE Len(cp) = 1 -> "　　" [] Len(cp) = 2 -> "　" [] OTHER -> "") \o " (" \o Pad(Len(g.members), 2) \o ")   :"
  \o Cat([i \in 1..Len(g.members) |-> " " \o QN(z, g.members[i])])
PatternLine(z, g, cp) ==
  LET a == QN(z, g.members[1])
      more == Tail(g.members)
  IN PadL(g.name, Columns(cp), 25) \o "(" \o Pad(Len(g.members), 2) \o ")   "
     \o (CASE g.kind = "Peer" -> "　 : " \o a [] g.kind = "Reading" -> a [] OTHER -> a \o ":")
     \o Cat([i \in 1..Len(more) |-> " " \o QN(z, more[i])])
NumWidth(q) == IF Len(q) < 100 THEN 2 ELSE IF Len(q) < 1000 THEN 3 ELSE 4
\* kanji of a kind of group by type, against all loaded kanji of the type
TypeLine(z, S, t) ==
  LET of == SelectSeq(z.types[t], LAMBDA n : n \in S)
      no == SelectSeq(z.types[t], LAMBDA n : n \notin S)
  IN If(of # <<>>, PadL(t, Len(t), 14) \o ": " \o N2(Len(of)) \o " / " \o N2(Len(z.types[t])) \o If(no # <<>>, " (" \o T!Join(Head1(no, Examples), " ") \o ")") \o "\n")
Unique(D, z, g) ==
  LET names == KD!NameOrder(D, z)
      in(n) == SelectSeq(names, LAMBDA x : x \in DOMAIN g.map /\ Len(g.map[x]) = n)
      all == Cardinality(DOMAIN g.map)
      top == CHOOSE m \in {Len(g.map[x]) : x \in DOMAIN g.map} : \A x \in DOMAIN g.map : Len(g.map[x]) <= m
  IN IF \A x \in DOMAIN g.map : Len(g.map[x]) = 1 THEN ""
     ELSE L3 \o "Unique kanji: " \o N2(all) \o " (once " \o N2(Len(in(1))) \o ", multi " \o N2(all - Len(in(1))) \o ")\n"
          \o Cat([i \in 1..(top - 1) |-> "  Kanji in " \o N2(i + 1) \o " groups:" \o Cat([j \in 1..Len(in(i + 1)) |-> " " \o in(i + 1)[j]]) \o "\n"])
Entries(g) == LET f[i \in 0..Len(g.list)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(g.list[i].members) IN f[Len(g.list)]
GroupsText(D, z, g, rows, meaning, full) ==
  LET line(i) == LET x == g.list[i]
                 IN "[" \o PadL(x.num, Len(x.num), NumWidth(g.list)) \o "]  " \o (IF meaning THEN MeaningLine(z, x, rows[i].cp) ELSE PatternLine(z, x, rows[i].cp)) \o "\n"
  IN L3 \o "Loaded " \o N2(Entries(g)) \o " kanji into " \o N2(Len(g.list)) \o " groups\n"
     \o If(full, L3 \o Legend \o "\nName (number of entries)   Parent Member : Other Members\n" \o Cat([i \in 1..Len(g.list) |-> line(i)]))
     \o If(meaning /\ g.list # <<>>, Unique(D, z, g))
     \o "Type Breakdown (showing up to " \o N2(Examples) \o " missing examples per type)\n"
     \o Cat([t \in 1..8 |-> TypeLine(z, DOMAIN g.map, KD!TypeList[t])])
GroupReport(D, z, e, full) ==
  LET x == GLoad(z, e.meaning, e.pattern) IN
  IF x.fail # "" \/ x.errs # <<>> THEN "?" ELSE GroupsText(D, z, x.m, e.meaning, TRUE, full) \o GroupsText(D, z, x.p, e.pattern, FALSE, full)

\* ---- compound words
RECURSIVE ByteLess(_, _)
ByteLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE ByteLess(Tail(a), Tail(b))
KeysRight(j, keys) ==
  /\ {keys[i].b : i \in 1..Len(keys)} = UNION {LET q == JU!KanjiOf(j.words[i].n) IN {q[x] : x \in 1..Len(q)} : i \in 1..Len(j.words)}
  /\ \A i \in 1..(Len(keys) - 1) : ByteLess(keys[i].b, keys[i + 1].b)
TypeOf(z, n) == IF n \in DOMAIN z.recs THEN z.recs[n].type ELSE LET f == KD!FindByName(z, n) IN IF f = "" THEN "None" ELSE z.recs[f].type
WordReport(z, e) ==
  LET j == JU!JLoad(e.files)
      n(f) == Len(SelectSeq(j.words, LAMBDA w : w.g = JU!Grades[f]))
      of(t) == LET q == SelectSeq(e.keys, LAMBDA x : TypeOf(z, x.n) = t) IN [i \in 1..Len(q) |-> q[i].n]
      ts == SelectSeq(Append(KD!TypeList, "None"), LAMBDA t : of(t) # <<>>)
  IN IF j.fail # JU!Fine \/ ~KeysRight(j, e.keys) THEN "?"
     ELSE ">>>\n>>> Begin Loading Jukugo\n>>>\n" \o Cat([f \in 1..7 |-> L3 \o "Loaded " \o N2(n(f)) \o " for Grade: " \o JU!Grades[f] \o "\n"])
          \o L3 \o "Total Kanji with Jukugo: " \o N2(Len(e.keys)) \o ", unique jukugo: " \o N2(Len(j.words)) \o "\n"
          \o Cat([i \in 1..Len(ts) |-> PadL(ts[i], Len(ts[i]), 14) \o ": " \o N2(Len(of(ts[i]))) \o " (" \o T!Join(Head1(of(ts[i]), Examples), " ") \o ")\n"])
QRApply(kd, e) ==
  CASE e.op = "open" -> LET y == KD!Load(e.D) IN [ok |-> y.fail = {} /\ e.r = [v |-> "loaded"], exp |-> y.fail, st |-> [D |-> e.D, z |-> y, opt |-> e.opt]]
    [] e.op = "greport" -> LET x == IF kd.opt = "" THEN "" ELSE GroupReport(kd.D, kd.z, e, kd.opt = "-debug") IN [ok |-> e.r = [v |-> x], exp |-> x, st |-> kd]
    [] e.op = "jreport" -> LET x == IF kd.opt = "" THEN "" ELSE WordReport(kd.z, e) IN [ok |-> e.r = [v |-> x], exp |-> x, st |-> kd]
=============================================================================
