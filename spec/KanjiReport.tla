---------------------------- MODULE KanjiReport ------------------------------
(* What loading a data directory reports with the options -info and -debug:    *)
(* every count is a count over the loaded kanji (KanjiData.tla), so that the   *)
(* breakdowns by type, grade, level and kyu each add up to the whole.          *)
EXTENDS KanjiData, FiniteSets
CC == INSTANCE CharClass
N2(n) == ToString(n)
Pad(n, w) == T!Times(" ", w - Len(N2(n))) \o N2(n)
PadR(n, w) == N2(n) \o T!Times(" ", w - Len(N2(n)))
L3 == ">>> "
L3H == ">>>\n>>> "
If(c, t) == IF c THEN t ELSE ""
Cat(q) == T!Join(q, "")
Sum(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i] IN f[Len(q)]
Rec(z, n) == z.recs[n]
Pick(z, q, P(_)) == SelectSeq(q, LAMBDA n : P(z.recs[n]))
Head1(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)
\* ">>> Found 2 Jinmei in N4: x y"
Found(q, what, where) == If(q # <<>>, L3 \o "Found " \o N2(Len(q)) \o " " \o what \o If(where # "", " in " \o where) \o ":" \o Cat([i \in 1..Len(q) |-> " " \o q[i]]) \o "\n")

\* ---- while a list is read: which of its names are not jouyou
LevelReport(D, z, l) ==
  LET q == D.levels[l]
      of(t) == SelectSeq(q, LAMBDA n : z.recs[FindByName(z, n)].type = t)
      w == LevelList[l]
  IN Found(of("LinkedOld"), "Linked Old", w) \o Found(of("Jinmei"), "Jinmei", w) \o Found(of("LinkedJinmei"), "Linked Jinmei", w)
FreqReport(D, z) ==
  LET q == NamesOf(D.freq)
      of(t) == SelectSeq(q, LAMBDA n : z.recs[FindByName(z, n)].type = t)
      has(t) == SelectSeq(of(t), LAMBDA n : Level(D, n) # "None")
      hasnt(t) == SelectSeq(of(t), LAMBDA n : Level(D, n) = "None")
      w == "Frequency"
  IN Found(of("LinkedOld"), "Linked Old", w) \o Found(of("Frequency"), "non-Jouyou/Jinmei/JLPT", w)
     \o Found(has("Jinmei"), "JLPT Jinmei", w) \o Found(hasnt("Jinmei"), "non-JLPT Jinmei", w)
     \o Found(has("LinkedJinmei"), "JLPT Linked Jinmei", w) \o Found(hasnt("LinkedJinmei"), "non-JLPT Linked Jinmei", w)
StrokesReport(z) == Cat([t \in 1..8 |-> Found(SelectSeq(z.types[TypeList[t]], LAMBDA n : HasUcd(z, n) /\ z.recs[n].v # UcdRec(z, n).strokes), TypeList[t] \o " Kanji with different strokes", "_ucd")])

\* ---- counts
Total(z) == L3 \o "Loaded " \o N2(Cardinality(DOMAIN z.recs)) \o " Kanji (" \o T!Join([t \in 1..8 |-> TypeList[t] \o " " \o N2(Len(z.types[TypeList[t]]))], " ") \o ")\n"
\* parts that are not empty, in type order, with up to n examples each
CountLine(z, name, n, P(_)) ==
  LET of(t) == Pick(z, z.types[t], P)
      ts == SelectSeq(TypeList, LAMBDA t : of(t) # <<>>)
  IN If(ts # <<>>, L3 \o name \o " " \o N2(Sum([i \in 1..Len(ts) |-> Len(of(ts[i]))])) \o " ("
        \o T!Join([i \in 1..Len(ts) |-> ts[i] \o " " \o N2(Len(of(ts[i]))) \o Cat([j \in 1..Len(Head1(of(ts[i]), n)) |-> " " \o of(ts[i])[j]])], ", ") \o ")\n")
Counts(z) ==
  CountLine(z, "  Has JLPT level", 0, LAMBDA k : k.level # "None") \o
  CountLine(z, "  Has frequency and not in Jouyou or JLPT", 0, LAMBDA k : k.freq # 0 /\ k.type # "Jouyou" /\ k.level = "None") \o
  CountLine(z, "  Jinmei with no frequency and not JLPT", 0, LAMBDA k : k.type = "Jinmei" /\ k.freq = 0 /\ k.level = "None") \o
  CountLine(z, "  NF (no-frequency)", 0, LAMBDA k : k.freq = 0) \o
  CountLine(z, "  Has Variant Strokes", 0, LAMBDA k : k.var # 0) \o
  CountLine(z, "  Has Variation Selectors", 5, LAMBDA k : k.variant) \o
  CountLine(z, "Old Forms", 0, LAMBDA k : k.old # <<>>)
Nf(n, brackets) == If(n > 0, IF brackets THEN " (nf " \o N2(n) \o ")" ELSE " nf " \o N2(n))
WithNone(q) == Append(q, "None")
\* jouyou kanji of each grade by level
Grades(z) ==
  LET j == z.types["Jouyou"]
      of(g) == Pick(z, j, LAMBDA k : k.grade = g)
      gs == SelectSeq(WithNone(GradeList), LAMBDA g : of(g) # <<>>)
      at(g, l) == Pick(z, of(g), LAMBDA k : k.level = l)
      Line(g) == LET ls == SelectSeq(WithNone(LevelList), LAMBDA l : at(g, l) # <<>>) IN
        L3 \o "  Total for grade " \o g \o ": " \o N2(Len(of(g))) \o Nf(Len(Pick(z, of(g), LAMBDA k : k.freq = 0)), TRUE)
        \o " (" \o T!Join([i \in 1..Len(ls) |-> ls[i] \o " " \o N2(Len(at(g, ls[i])))], ", ") \o ")\n"
  IN L3 \o "Grade breakdown:\n" \o Cat([i \in 1..Len(gs) |-> Line(gs[i])]) \o L3 \o "  Total for all grades: " \o N2(Len(j)) \o "\n"
\* all kanji by level or kyu ('of' the field's value for a record), then by type
Breakdown(z, list, name, nf, F(_)) ==
  LET all(x) == {n \in DOMAIN z.recs : F(z.recs[n]) = x}
      of(x, t) == Pick(z, z.types[t], LAMBDA k : F(k) = x)
      xs == SelectSeq(WithNone(list), LAMBDA x : all(x) # {})
      Line(x) == LET ts == SelectSeq(TypeList, LAMBDA t : of(x, t) # <<>>) IN
        L3 \o "  Total for " \o name \o " " \o x \o ": " \o N2(Cardinality(all(x))) \o " ("
        \o T!Join([i \in 1..Len(ts) |-> ts[i] \o " " \o N2(Len(of(x, ts[i]))) \o If(nf, Nf(Len(Pick(z, of(x, ts[i]), LAMBDA k : k.freq = 0)), FALSE))], ", ") \o ")\n"
  IN L3 \o name \o " breakdown:\n" \o Cat([i \in 1..Len(xs) |-> Line(xs[i])]) \o L3 \o "  Total for all " \o name \o "s: " \o N2(Cardinality(DOMAIN z.recs)) \o "\n"

\* ---- radicals of common kanji: counts by type and the first 12 by strokes
IsCommon(z, n) == LET c == NameInfo(z, n).cp IN CC!In("common", c[1])
RadText(D, i) == "[" \o SubSeq("000", 1, 3 - Len(N2(i))) \o N2(i) \o "] " \o D.radicals[i]
TypeCounts(z, S, t) == Cardinality({n \in S : z.recs[n].type = TypeList[t]})
Radicals(D, z) ==
  LET all == {n \in DOMAIN z.recs : IsCommon(z, n)}
      of(i) == {n \in all : z.recs[n].rad = i}
      ids == SelectSeq([i \in 1..Len(D.radicals) |-> i], LAMBDA i : of(i) # {})
      no == SelectSeq([i \in 1..Len(D.radicals) |-> i], LAMBDA i : of(i) = {})
      Line(i) == LET q == SortBy(z, of(i), "strokes") IN
        RadText(D, i) \o ":" \o Pad(Len(q), 4) \o " (" \o Cat([t \in 1..8 |-> Pad(TypeCounts(z, of(i), t), 4)]) \o ") :"
        \o Cat([j \in 1..Len(Head1(q, 12)) |-> " " \o q[j]]) \o If(Len(q) > 12, " ...") \o "\n"
  IN L3 \o "Common Kanji Radicals (" \o T!Join(TypeList, " ") \o "):\n" \o Cat([i \in 1..Len(ids) |-> Line(ids[i])])
     \o L3 \o "  Total for " \o N2(Len(ids)) \o " radicals: " \o Pad(Cardinality(all), 4) \o " (" \o T!Join([t \in 1..8 |-> N2(TypeCounts(z, all, t))], " ") \o ")\n"
     \o If(no # <<>>, L3 \o "  Found " \o N2(Len(no)) \o " radical" \o If(Len(no) > 1, "s") \o " with no Kanji:" \o Cat([i \in 1..Len(no) |-> " " \o RadText(D, no[i])]) \o "\n")

\* ---- Unicode data
UcdKind(q) == IF q.joyo THEN 1 ELSE IF q.jinmei THEN 2 ELSE 3
UcdLine(z, name, P(_)) ==
  LET c(k) == Cardinality({n \in DOMAIN z.u.recs : UcdKind(z.u.recs[n]) = k /\ P(z.u.recs[n])}) IN
  L3 \o "  " \o name \o ": " \o N2(c(1) + c(2) + c(3)) \o " (Jouyou " \o N2(c(1)) \o ", Jinmei " \o N2(c(2)) \o ", Other " \o N2(c(3)) \o ")\n"
UcdLinks(z, t) ==
  LET q == z.types[t]
      has(n) == n \in DOMAIN z.u.recs /\ z.u.recs[n].has
      Line(n) == IF n \notin DOMAIN z.u.recs THEN "  ERROR: " \o n \o " not found in UCD\n"
                 ELSE If(has(n), "  " \o z.u.recs[n].shown \o " -> " \o z.u.recs[n].shownLinks \o " " \o z.u.recs[n].type \o "\n")
  IN L3 \o t \o " Kanji with links " \o N2(Len(SelectSeq(q, has))) \o ":\n" \o Cat([i \in 1..Len(q) |-> Line(q[i])])
Selectors(D, z) ==
  LET q == SelectSeq(NameOrder(D, z), LAMBDA n : z.recs[n].variant)
      Line(i) == LET n == q[i]
                     u == UcdRec(z, n)
                 IN L3 \o "    " \o PadR(i, 3) \o "    " \o UniSq(NameInfo(z, n).cp) \o " " \o n \o " variant of " \o z.recs[n].nonvar \o "    "
                    \o u.shown \o If(u.has, " variant of " \o u.shownLinks) \o "\n"
  IN L3 \o "  Standard Kanji with 'Variation Selectors' vs UCD Variants:\n" \o L3 \o "    #      Standard Kanji with Selector    UCD Compatibility Kanji\n"
     \o L3 \o "    -      ----------------------------    -----------------------\n" \o Cat([i \in 1..Len(q) |-> Line(i)])
UcdReport(D, z) ==
  L3 \o "Kanji Loaded from Unicode 'ucd' file:\n" \o UcdLine(z, "Total", LAMBDA q : TRUE) \o UcdLine(z, "Links", LAMBDA q : q.has)
  \o UcdLine(z, "VStrokes", LAMBDA q : q.var # 0) \o UcdLine(z, "Meanings", LAMBDA q : q.meaning # "") \o UcdLine(z, "On Readings", LAMBDA q : q.on # "")
  \o UcdLine(z, "Kun Readings", LAMBDA q : q.kun # "") \o UcdLine(z, "Morohashi Ids", LAMBDA q : Num!MParse(q.moro).v.id # 0) \o UcdLine(z, "Nelson Ids", LAMBDA q : q.nelson # "")
  \o UcdLinks(z, "Frequency") \o UcdLinks(z, "Extra") \o Selectors(D, z)

Report(D, z, full) ==
  If(full, L3H \o "Begin Loading Data\n>>>\n" \o Cat([l \in 1..5 |-> LevelReport(D, z, l)]) \o FreqReport(D, z) \o StrokesReport(z) \o L3H \o "Finished Loading Data\n>>>\n")
  \o Total(z) \o If(full, Counts(z)) \o Grades(z)
  \o If(full, Breakdown(z, LevelList, "Level", TRUE, LAMBDA k : k.level) \o Breakdown(z, KyuList, "Kyu", FALSE, LAMBDA k : k.kyu) \o Radicals(D, z) \o UcdReport(D, z))
\* e: D, opt: the whole output of loading D with that option
RApply(kd, e) ==
  LET z == Load(e.D)
      x == Report(e.D, z, e.opt = "-debug")
  IN IF z.fail # {} THEN [ok |-> Fail(e.r) /\ [E |-> e.r.E, m |-> e.r.m] \in z.fail, exp |-> z.fail, st |-> kd]
     ELSE [ok |-> e.r = Val(x), exp |-> x, st |-> kd]
=============================================================================
