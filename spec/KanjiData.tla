------------------------------ MODULE KanjiData ------------------------------
(* A data directory and the kanji it creates. The directory D is a record:     *)
(*   cps       every name that occurs: [n, base, cp] in code point order       *)
(*   ucd       rows as in Ucd;  radicals  names in order;  freqr  <<name, reading>> *)
(*   jouyou, jinmei, extra  rows;  linked  [jouyou, linked, bad (a malformed line)] *)
(*   levels (N5..N1), kyus (K10..K1)  sequences of names;  freq  [n, pos]      *)
(* State z: what has been loaded so far                                        *)
(*   recs (name -> kanji), order (names in load order), types (type -> names), *)
(*   grades, levels, kyus, compat (UCD name -> name with selector), errs       *)
(*   (messages printed), u (the Unicode data), fail (acceptable fatal errors)  *)
EXTENDS Integers, Sequences, TLC
U == INSTANCE Ucd
T == INSTANCE Text
CF == INSTANCE ColumnFile
Num == INSTANCE KanjiNumbers

Val(x) == [v |-> x]
Fail(x) == "E" \in DOMAIN x
Dom(m) == [E |-> "DomainError", m |-> m]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
In(q, x) == \E i \in 1..Len(q) : q[i] = x
Put(f, key, val) == (key :> val) @@ f

TypeList == <<"Jouyou", "Jinmei", "LinkedJinmei", "LinkedOld", "Frequency", "Extra", "Kentei", "Ucd">>
GradeList == <<"G1", "G2", "G3", "G4", "G5", "G6", "S">>
LevelList == <<"N5", "N4", "N3", "N2", "N1">>
KyuList == <<"K10", "K9", "K8", "K7", "K6", "K5", "K4", "K3", "KJ2", "K2", "KJ1", "K1">>
ReasonList == <<"Names", "Print", "Variant", "Moved", "Simple", "Other">>
MaxFreq == 65535

\* ---- names
RECURSIVE CpLess(_, _)
CpLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE CpLess(Tail(a), Tail(b))
NameInfo(z, n) == z.names[n]
IsVariant(i) == Len(i.cp) = 2 /\ i.cp[2] \in 65024..65039
UniText(cp) == T!Join([i \in 1..Len(cp) |-> U!Uni(cp[i])], " ")
UniSq(cp) == "[" \o UniText(cp) \o "]"

\* ---- positions in the lists
PlaceOf(D, lists, names, n) == IF \E i \in 1..Len(lists) : In(lists[i], n) THEN names[CHOOSE i \in 1..Len(lists) : In(lists[i], n)] ELSE "None"
Level(D, n) == PlaceOf(D, D.levels, LevelList, n)
Kyu(D, n) == PlaceOf(D, D.kyus, KyuList, n)
Freq(D, n) == IF \E i \in 1..Len(D.freq) : D.freq[i].n = n THEN D.freq[CHOOSE i \in 1..Len(D.freq) : D.freq[i].n = n].pos ELSE 0

\* ---- the Unicode entry of a name ("" = none), and lookups of loaded kanji
UcdName(z, n) == U!FindName(z.u, NameInfo(z, n).base, IsVariant(NameInfo(z, n)))
HasUcd(z, n) == UcdName(z, n) # ""
UcdRec(z, n) == z.u.recs[UcdName(z, n)]
FindByName(z, n) == LET m == IF n \in DOMAIN z.compat THEN z.compat[n] ELSE n IN IF m \in DOMAIN z.recs THEN m ELSE ""

\* ---- kanji
RECURSIVE NumList(_)
NumList(q) == IF q = <<>> THEN <<>> ELSE <<T!NumOf(q[1])>> \o NumList(Tail(q))
Base(z, type, n) ==
  LET has == HasUcd(z, n)
      q == IF has THEN UcdRec(z, n) ELSE [none |-> TRUE]
      i == NameInfo(z, n)
  IN [n |-> n, type |-> type, compat |-> IF has THEN q.name ELSE n, variant |-> IsVariant(i), nonvar |-> IF IsVariant(i) THEN i.base ELSE n,
      rad |-> 0, v |-> 0, var |-> 0, pinyin |-> IF has THEN q.pinyin ELSE "", moro |-> IF has THEN q.moro ELSE "",
      nelson |-> IF has /\ q.nelson # "" THEN NumList(T!Pieces(q.nelson, ",")) ELSE <<>>,
      meaning |-> IF has THEN q.meaning ELSE "", reading |-> "", grade |-> "None", level |-> "None", kyu |-> "None", freq |-> 0, link |-> "",
      new |-> "", old |-> <<>>, linked |-> FALSE, year |-> 0, reason |-> "None", extra |-> ""]
LinkNames(q) == [i \in 1..Len(q.links) |-> q.links[i].name]
\* strokes and radical of the Unicode entry (which must exist)
FromUcd(z, k) == LET q == UcdRec(z, k.n) IN [k EXCEPT !.rad = q.radical, !.v = q.strokes, !.var = q.var]
RadOf(D, name) == CHOOSE i \in 1..Len(D.radicals) : D.radicals[i] = name

JouyouK(D, z, w) == [Base(z, "Jouyou", w.Name) EXCEPT !.rad = RadOf(D, w.Radical), !.v = T!NumOf(w.Strokes), !.meaning = w.Meaning, !.reading = w.Reading,
  !.grade = IF w.Grade = "S" THEN "S" ELSE "G" \o w.Grade, !.level = Level(D, w.Name), !.kyu = Kyu(D, w.Name), !.freq = Freq(D, w.Name), !.old = T!Pieces(w.OldNames, ","),
  !.year = IF w.Year = "" THEN 0 ELSE T!NumOf(w.Year), !.extra = "#" \o CF!Canon(w.Number) \o (IF w.Year = "" \/ T!NumOf(w.Year) = 0 THEN "" ELSE " " \o CF!Canon(w.Year))]
JinmeiK(D, z, w) == [FromUcd(z, Base(z, "Jinmei", w.Name)) EXCEPT !.rad = RadOf(D, w.Radical), !.reading = w.Reading,
  !.level = Level(D, w.Name), !.kyu = Kyu(D, w.Name), !.freq = Freq(D, w.Name), !.old = T!Pieces(w.OldNames, ","), !.reason = w.Reason,
  !.year = IF w.Year = "" THEN 0 ELSE T!NumOf(w.Year),
  !.extra = "#" \o CF!Canon(w.Number) \o (IF w.Year = "" \/ T!NumOf(w.Year) = 0 THEN "" ELSE " " \o CF!Canon(w.Year)) \o " [" \o w.Reason \o "]"]
ExtraK(D, z, w) == [Base(z, "Extra", w.Name) EXCEPT !.rad = RadOf(D, w.Radical), !.v = T!NumOf(w.Strokes), !.meaning = w.Meaning, !.reading = w.Reading,
  !.kyu = Kyu(D, w.Name), !.extra = "#" \o CF!Canon(w.Number),
  !.old = IF HasUcd(z, w.Name) /\ UcdRec(z, w.Name).trad THEN LinkNames(UcdRec(z, w.Name)) ELSE <<>>,
  !.new = IF HasUcd(z, w.Name) /\ UcdRec(z, w.Name).nontrad THEN LinkNames(UcdRec(z, w.Name))[1] ELSE ""]
LinkedK(D, z, type, n, link) == LET l == z.recs[link] IN
  [FromUcd(z, Base(z, type, n)) EXCEPT !.meaning = l.meaning, !.reading = l.reading, !.kyu = Kyu(D, n), !.freq = Freq(D, n), !.link = link, !.new = link, !.linked = TRUE]
OtherK(D, z, type, n) == LET q == UcdRec(z, n) IN
  [FromUcd(z, Base(z, type, n)) EXCEPT !.reading = U!Readings(q.on, q.kun), !.linked = q.linkedReadings,
     !.old = IF q.trad THEN LinkNames(q) ELSE <<>>, !.new = IF q.nontrad THEN LinkNames(q)[1] ELSE ""]
FreqK(D, z, n, pos) ==
  LET f == {i \in 1..Len(D.freqr) : D.freqr[i][1] = n}
      k == [OtherK(D, z, "Frequency", n) EXCEPT !.kyu = Kyu(D, n), !.freq = pos]
  IN IF f = {} THEN k ELSE [k EXCEPT !.reading = D.freqr[CHOOSE i \in f : TRUE][2]]
KenteiK(D, z, n, kyu) == [OtherK(D, z, "Kentei", n) EXCEPT !.kyu = kyu]

\* why a kanji cannot be made from the Unicode data
UcdWhy(D, z, n) == IF ~HasUcd(z, n) THEN {Dom("UCD entry not found: " \o n)}
                   ELSE IF UcdRec(z, n).radical > Len(D.radicals) THEN {Dom("'" \o ToString(UcdRec(z, n).radical) \o "' is not a valid radical number")} ELSE {}
\* why a row of a numbered file is refused
Cell(file, n, c, t, max) == LET x == CF!ToNum([name |-> file, row |-> n], c, t, max) IN IF Fail(x) THEN {x} ELSE {}
RowWhy(D, w, file, n) == Cell(file, n, "Number", w.Number, "65535") \cup (IF In(D.radicals, w.Radical) THEN {} ELSE {Dom("name not found: " \o w.Radical)})
StrokesWhy(w, file, n) == LET x == CF!ToNum([name |-> file, row |-> n], "Strokes", w.Strokes, "255") IN
  IF Fail(x) THEN {x} ELSE LET y == Num!Strokes1(T!NumOf(x.v)) IN IF Fail(y) THEN {y} ELSE {}
YearWhy(w, file, n) == IF w.Year = "" THEN {} ELSE Cell(file, n, "Year", w.Year, "65535")
NotIn(q, x) == IF In(q, x) THEN {} ELSE {Dom("name '" \o x \o "' not found")}
JouyouWhy(D, z, w, n) == RowWhy(D, w, "jouyou.txt", n) \cup StrokesWhy(w, "jouyou.txt", n) \cup YearWhy(w, "jouyou.txt", n)
                         \cup NotIn(GradeList, IF T!StartsWith(w.Grade, "S") THEN w.Grade ELSE "G" \o w.Grade)
JinmeiWhy(D, z, w, n) == RowWhy(D, w, "jinmei.txt", n) \cup YearWhy(w, "jinmei.txt", n) \cup NotIn(ReasonList, w.Reason)
                         \cup (IF HasUcd(z, w.Name) THEN {} ELSE {Dom("UCD entry not found: " \o w.Name)})
ExtraWhy(D, z, w, n) == RowWhy(D, w, "extra.txt", n) \cup StrokesWhy(w, "extra.txt", n)

\* ---- adding one kanji: reported problems, then the indexes
Said(z, m) == [z EXCEPT !.errs = Append(@, m)]
Sanity(z, k) ==
  LET e(m) == <<k.n \o " " \o UniSq(NameInfo(z, k.n).cp) \o (IF k.variant THEN " (non-variant: " \o k.nonvar \o ")" ELSE "") \o " " \o m \o " in _ucd">> IN
  IF ~HasUcd(z, k.n) THEN e("not found")
  ELSE LET q == UcdRec(z, k.n) IN
       IF k.type = "Jouyou" /\ ~q.joyo THEN e("not marked as 'Joyo'")
       ELSE IF k.type = "Jinmei" /\ ~q.jinmei THEN e("not marked as 'Jinmei'")
       ELSE IF k.type = "LinkedJinmei" /\ ~q.jinmei THEN e("with link not marked as 'Jinmei'")
       ELSE IF k.type = "LinkedJinmei" /\ ~q.has THEN e("missing 'JinmeiLink' for " \o q.shown)
       ELSE <<>>
Insert(z, k) ==
  IF k.n \in DOMAIN z.recs THEN Said(z, "failed to insert '" \o k.n \o "' into map")
  ELSE LET dupv == k.variant /\ k.compat \in DOMAIN z.compat IN
       [z EXCEPT !.recs = Put(@, k.n, k), !.order = Append(@, k.n),
          !.errs = @ \o Sanity(z, k) \o (IF dupv THEN <<"failed to insert variant '" \o k.n \o "' into map">> ELSE <<>>),
          !.grades = IF k.grade = "None" THEN @ ELSE [@ EXCEPT ![k.grade] = Append(@, k.n)],
          !.compat = IF k.variant /\ ~dupv THEN Put(@, k.compat, k.n) ELSE @]
Listed(z, t, n) == [z EXCEPT !.types[t] = Append(@, n)]
InsertListed(z, k) == IF k.n \in DOMAIN z.recs THEN Insert(z, k) ELSE Listed(Insert(z, k), k.type, k.n)
Stop(z, why) == [z EXCEPT !.fail = why]

\* ---- the files one after another (a state with fail # {} is final)
\* all rows of a numbered file are read before the first kanji is added
RECURSIVE Why(_, _, _, _, _)
Why(D, z, rows, kind, i) ==
  IF i > Len(rows) THEN {}
  ELSE LET w == CASE kind = "jouyou" -> JouyouWhy(D, z, rows[i], i) [] kind = "jinmei" -> JinmeiWhy(D, z, rows[i], i) [] kind = "extra" -> ExtraWhy(D, z, rows[i], i)
       IN IF w # {} THEN w ELSE Why(D, z, rows, kind, i + 1)
RECURSIVE Jouyou(_, _, _)
Jouyou(D, z, rows) == IF rows = <<>> THEN z ELSE LET k == JouyouK(D, z, rows[1]) IN Jouyou(D, Listed(Insert(z, k), "Jouyou", k.n), Tail(rows))
RECURSIVE Extra(_, _, _)
Extra(D, z, rows) == IF rows = <<>> THEN z ELSE LET k == ExtraK(D, z, rows[1]) IN Extra(D, Listed(Insert(z, k), "Extra", k.n), Tail(rows))

LinkWhy(z, n, link, old) ==
  LET t == z.recs[link].type IN
  IF t = "Jouyou" \/ (~old /\ t = "Jinmei") THEN {}
  ELSE {Dom("OfficialLinkedKanji " \o n \o " wanted type 'Jouyou" \o (IF old THEN "" ELSE "' or 'Jinmei") \o "' for link " \o link \o ", but got '" \o t \o "'")}
AddLinked(D, z, type, n, link) ==
  LET w == LinkWhy(z, n, link, type = "LinkedOld")
      why == IF w # {} THEN w ELSE UcdWhy(D, z, n)
  IN IF why # {} THEN Stop(z, why) ELSE InsertListed(z, LinkedK(D, z, type, n, link))
RECURSIVE Linked(_, _, _)
Linked(D, z, ls) ==
  IF ls = <<>> \/ z.fail # {} THEN z
  ELSE LET l == ls[1] IN
       IF l.bad THEN Stop(z, {Dom("bad line '" \o l.line \o "' - file: linked-jinmei.txt")})
       ELSE IF l.jouyou \notin DOMAIN z.recs THEN Stop(z, {Dom("'" \o l.jouyou \o "' not found - file: linked-jinmei.txt")})
       ELSE Linked(D, AddLinked(D, z, "LinkedJinmei", l.linked, l.jouyou), Tail(ls))
\* old names of one kanji; then of all kanji in name order
RECURSIVE OldOf(_, _, _, _)
OldOf(D, z, n, q) == IF q = <<>> \/ z.fail # {} THEN z
                     ELSE OldOf(D, IF FindByName(z, q[1]) # "" THEN z ELSE AddLinked(D, z, "LinkedOld", q[1], n), n, Tail(q))
RECURSIVE Olds(_, _, _)
Olds(D, z, q) == IF q = <<>> \/ z.fail # {} THEN z ELSE Olds(D, IF q[1] \in DOMAIN z.recs THEN OldOf(D, z, q[1], z.recs[q[1]].old) ELSE z, Tail(q))
RECURSIVE JinmeiOld(_, _, _, _)
JinmeiOld(D, z, n, q) == IF q = <<>> \/ z.fail # {} THEN z
                         ELSE JinmeiOld(D, AddLinked(D, z, "LinkedJinmei", q[1], n), n, Tail(q))
\* the kanji of the jinmei file and the links of each (the link is the row's kanji even if its name was taken)
RECURSIVE Jinmei(_, _, _)
Jinmei(D, z, rows) ==
  IF rows = <<>> \/ z.fail # {} THEN z
  ELSE LET k == JinmeiK(D, z, rows[1])
           y == Listed(Insert(z, k), "Jinmei", k.n)
           taken == k.n \in DOMAIN z.recs
           \* links are made from the kanji of this row
           src == [y EXCEPT !.recs = Put(@, k.n, k)]
           back(x) == IF taken THEN [x EXCEPT !.recs = Put(@, k.n, z.recs[k.n])] ELSE x
       IN Jinmei(D, back(JinmeiOld(D, src, k.n, k.old)), Tail(rows))

\* names of a level list; the frequency list; the kyu lists
RECURSIVE Levels(_, _, _, _)
Levels(D, z, l, q) == IF q = <<>> THEN z ELSE Levels(D, [z EXCEPT !.levels[l] = Append(@, FindByName(z, q[1]))], l, Tail(q))
RECURSIVE Freqs(_, _, _)
Freqs(D, z, q) ==
  IF q = <<>> \/ z.fail # {} THEN z
  ELSE LET n == q[1].n
           found == FindByName(z, n)
           why == IF found = "" THEN UcdWhy(D, z, n) ELSE {}
           y == IF found # "" THEN z ELSE InsertListed(z, FreqK(D, z, n, q[1].pos))
       IN IF why # {} THEN Stop(z, why) ELSE Freqs(D, [y EXCEPT !.freqs = Append(@, [n |-> FindByName(y, n), pos |-> q[1].pos])], Tail(q))
RECURSIVE Kyus(_, _, _, _)
Kyus(D, z, kyu, q) ==
  IF q = <<>> \/ z.fail # {} THEN z
  ELSE LET n == q[1]
           found == FindByName(z, n)
           why == IF found = "" THEN UcdWhy(D, z, n) ELSE {}
           y == IF found # "" THEN z ELSE InsertListed(z, KenteiK(D, z, n, kyu))
       IN IF why # {} THEN Stop(z, why) ELSE Kyus(D, [y EXCEPT !.kyus[kyu] = Append(@, FindByName(y, n))], kyu, Tail(q))
RECURSIVE AllKyus(_, _, _)
AllKyus(D, z, i) == IF i > 12 THEN z ELSE AllKyus(D, Kyus(D, z, KyuList[i], D.kyus[i]), i + 1)
RECURSIVE AllLevels(_, _, _)
AllLevels(D, z, i) == IF i > 5 THEN z ELSE AllLevels(D, Levels(D, z, LevelList[i], D.levels[i]), i + 1)
\* Unicode entries that no file mentioned, in name order
RECURSIVE Rest(_, _, _)
Rest(D, z, q) ==
  IF q = <<>> \/ z.fail # {} THEN z
  ELSE LET n == q[1].n IN
       IF n \notin DOMAIN z.u.recs \/ FindByName(z, n) # "" THEN Rest(D, z, Tail(q))
       ELSE LET why == UcdWhy(D, z, n) IN IF why # {} THEN Stop(z, why) ELSE Rest(D, InsertListed(z, OtherK(D, z, "Ucd", n)), Tail(q))

Empty(q) == [i \in SeqSet(q) |-> <<>>]
Fresh(D) == [names |-> [n \in {D.cps[i].n : i \in 1..Len(D.cps)} |-> D.cps[CHOOSE i \in 1..Len(D.cps) : D.cps[i].n = n]],
             recs |-> <<>>, order |-> <<>>, types |-> Empty(TypeList), grades |-> Empty(GradeList), levels |-> Empty(LevelList), kyus |-> Empty(KyuList),
             freqs |-> <<>>, compat |-> <<>>, errs |-> <<>>, u |-> U!UFresh, fail |-> {}]
FirstDup(q) == IF \E i \in 1..Len(q) : \E j \in 1..(i - 1) : q[j][1] = q[i][1]
               THEN CHOOSE i \in 1..Len(q) : (\E j \in 1..(i - 1) : q[j][1] = q[i][1]) /\ ~\E h \in 1..(i - 1) : \E j \in 1..(h - 1) : q[j][1] = q[h][1] ELSE 0

Load(D) ==
  LET l == U!LoadRows(U!UFresh, D.ucd, "ucd.txt", 1)
      z0 == [Fresh(D) EXCEPT !.u = l.st]
      dup == FirstDup(D.freqr)
      wj == Why(D, z0, D.jouyou, "jouyou", 1)
      z1 == IF l.errs # {} THEN Stop(z0, {Dom(m) : m \in l.errs})
            ELSE IF dup > 0 THEN Stop(z0, {Dom("duplicate name - file: frequency-readings.txt, row: " \o ToString(dup))})
            ELSE IF wj # {} THEN Stop(z0, wj) ELSE Jouyou(D, z0, D.jouyou)
      z2 == IF z1.fail # {} THEN z1 ELSE Linked(D, z1, D.linked)
      z3 == IF z2.fail # {} THEN z2 ELSE Olds(D, z2, [i \in 1..Len(D.cps) |-> D.cps[i].n])
      wn == IF z3.fail # {} THEN {} ELSE Why(D, z3, D.jinmei, "jinmei", 1)
      z4 == IF z3.fail # {} THEN z3 ELSE IF wn # {} THEN Stop(z3, wn) ELSE Jinmei(D, z3, D.jinmei)
      we == IF z4.fail # {} THEN {} ELSE Why(D, z4, D.extra, "extra", 1)
      z5 == IF z4.fail # {} THEN z4 ELSE IF we # {} THEN Stop(z4, we) ELSE Extra(D, z4, D.extra)
      z6 == IF z5.fail # {} THEN z5 ELSE AllKyus(D, Freqs(D, AllLevels(D, z5, 1), D.freq), 1)
  IN IF z6.fail # {} THEN z6 ELSE Rest(D, z6, D.cps)

\* ---- frequency lists of 250, the last one takes all that follow
Buckets == 10
BucketOf(pos) == LET b == (pos - 1) \div 250 IN IF b < Buckets THEN b ELSE Buckets - 1
NamesOf(q) == [i \in 1..Len(q) |-> q[i].n]
FreqList(z, b) == NamesOf(SelectSeq(z.freqs, LAMBDA x : BucketOf(x.pos) = b))

\* ---- lookups
ByFreq(z, n) == IF \E i \in 1..Len(z.freqs) : z.freqs[i].pos = n THEN z.freqs[CHOOSE i \in 1..Len(z.freqs) : z.freqs[i].pos = n].n ELSE ""
ByMoro(z, t) == LET p == Num!MParse(t) IN
  IF Fail(p) THEN p ELSE Val(IF p.v.id = 0 THEN <<>> ELSE SelectSeq(z.order, LAMBDA n : z.recs[n].moro = Num!MText(p.v)))
ByNelson(z, i) == SelectSeq(z.order, LAMBDA n : In(z.recs[n].nelson, i))
MaxFreqOf(z) == IF z.freqs = <<>> THEN 0 ELSE z.freqs[Len(z.freqs)].pos + 1

\* ---- descriptions
Bit(f, b) == (f \div b) % 2 = 1
Keep(q) == SelectSeq(q, LAMBDA x : x # "")
InfoText(D, k, f) ==
  LET o == IF k.old = <<>> THEN "" ELSE "Old " \o T!Join([i \in 1..Len(k.old) |-> k.old[i] \o (IF i = 1 /\ k.linked THEN "*" ELSE "")], "／")
      If(c, t) == IF c THEN t ELSE ""
  IN T!Join(Keep(<<If(Bit(f, 1), "Rad " \o D.radicals[k.rad] \o "(" \o ToString(k.rad) \o ")"),
                   If(Bit(f, 2), "Strokes " \o ToString(k.v)),
                   If(Bit(f, 4), k.pinyin),
                   If(Bit(f, 8) /\ k.grade # "None", k.grade),
                   If(Bit(f, 16) /\ k.level # "None", k.level),
                   If(Bit(f, 32) /\ k.freq # 0, "Frq " \o ToString(k.freq)),
                   If(Bit(f, 64) /\ k.new # "", "New " \o k.new \o (IF k.linked THEN "*" ELSE "")),
                   If(Bit(f, 128) /\ k.new = "", o),
                   If(Bit(f, 256) /\ k.kyu # "None", k.kyu)>>), ", ")
Suffixes == <<".", "'", "\"", "^", "~", "%", "+", "@", "#", "*">>
Rank(k) == IF k.type = "Jouyou" THEN 1 ELSE IF k.level # "None" THEN 2 ELSE IF k.freq # 0 THEN 3
           ELSE CASE k.type = "Jinmei" -> 4 [] k.type = "LinkedJinmei" -> 5 [] k.type = "LinkedOld" -> 6 [] k.type = "Extra" -> 7
                  [] k.type = "Ucd" -> 10 [] OTHER -> IF k.kyu # "K1" THEN 8 ELSE 9
QName(k) == k.n \o Suffixes[Rank(k)]
FreqOrMax(k) == IF k.freq = 0 THEN MaxFreq ELSE k.freq
\* compat names are names of the directory too (or the name itself)
ByStrokes(z, a, b) ==
  LET x == z.recs[a]
      y == z.recs[b]
  IN IF x.v # y.v THEN x.v < y.v ELSE IF x.var # y.var THEN x.var < y.var
     ELSE IF FreqOrMax(x) # FreqOrMax(y) THEN FreqOrMax(x) < FreqOrMax(y)
     ELSE T!TextLess(UniText(NameInfo(z, x.compat).cp), UniText(NameInfo(z, y.compat).cp))
ByQName(z, a, b) == LET p == Rank(z.recs[a])
                        q == Rank(z.recs[b]) IN p < q \/ (p = q /\ ByStrokes(z, a, b))
RECURSIVE SortBy(_, _, _)
SortBy(z, S, how) == IF S = {} THEN <<>> ELSE
  LET m == CHOOSE x \in S : \A y \in S \ {x} : IF how = "strokes" THEN ByStrokes(z, x, y) ELSE ByQName(z, x, y) IN <<m>> \o SortBy(z, S \ {m}, how)

\* each of q as often as it is in f
RECURSIVE Repeated(_, _)
Repeated(q, f) == IF q = <<>> THEN <<>> ELSE SelectSeq(f, LAMBDA x : x = q[1]) \o Repeated(Tail(q), f)

\* ---- what a load answers
NameOrder(D, z) == SelectSeq([i \in 1..Len(D.cps) |-> D.cps[i].n], LAMBDA n : n \in DOMAIN z.recs)
Full(k) == k @@ [q |-> QName(k), fm |-> FreqOrMax(k)]
Dump(D, z) == [errs |-> z.errs, recs |-> [i \in 1..Len(NameOrder(D, z)) |-> Full(z.recs[NameOrder(D, z)[i]])],
               types |-> [i \in 1..8 |-> z.types[TypeList[i]]], grades |-> [i \in 1..7 |-> z.grades[GradeList[i]]], levels |-> [i \in 1..5 |-> z.levels[LevelList[i]]],
               kyus |-> [i \in 1..12 |-> z.kyus[KyuList[i]]], freqs |-> [i \in 1..10 |-> FreqList(z, i - 1)], max |-> MaxFreqOf(z)]
Sane(D) == \A i \in 1..(Len(D.cps) - 1) : CpLess(D.cps[i].cp, D.cps[i + 1].cp)
KFresh == [D |-> <<>>, z |-> [fail |-> {"nothing loaded"}]]
KApply(kd, e) ==
  LET D == kd.D
      z == kd.z
      Is(x) == [ok |-> e.r = Val(x), exp |-> x, st |-> kd]
      RecOf(n) == z.recs[n]
  IN CASE e.op = "load" ->
            LET y == Load(e.D)
                d == Dump(e.D, y)
            IN IF ~Sane(e.D) THEN [ok |-> FALSE, exp |-> "names of the recorded directory out of order", st |-> kd]
               ELSE IF y.fail # {} THEN [ok |-> Fail(e.r) /\ [E |-> e.r.E, m |-> e.r.m] \in y.fail, exp |-> y.fail, st |-> [D |-> e.D, z |-> y]]
               ELSE [ok |-> e.r = Val(d), exp |-> d, st |-> [D |-> e.D, z |-> y]]
       \* name -> kanji found, its type; Unicode entry; position, level and kyu in the lists
       [] e.op = "find" -> LET f == FindByName(z, e.n) IN
            Is([n |-> f, type |-> IF f = "" THEN "None" ELSE RecOf(f).type, ucd |-> UcdName(z, e.n), freq |-> Freq(D, e.n), level |-> Level(D, e.n), kyu |-> Kyu(D, e.n)])
       [] e.op = "freq" -> Is(ByFreq(z, e.i))
       [] e.op = "list" -> Is(IF e.i < Buckets THEN FreqList(z, e.i) ELSE <<>>)
       [] e.op = "moro" -> LET x == ByMoro(z, e.t) IN [ok |-> e.r = x, exp |-> x, st |-> kd]
       [] e.op = "nelson" -> Is(ByNelson(z, e.i))
       \* descriptions and orders of kanji found by name (the harness answers "no kanji" when one is not found)
       [] e.op \in {"info", "order", "sort"} ->
            LET a == IF e.op = "info" THEN <<e.n>> ELSE e.a
                f == [i \in 1..Len(a) |-> FindByName(z, a[i])]
            IN IF "" \in SeqSet(f) THEN LET x == [E |-> "exception", m |-> "no kanji " \o a[CHOOSE i \in 1..Len(a) : f[i] = "" /\ \A j \in 1..(i - 1) : f[j] # ""]]
                                         IN [ok |-> e.r = x, exp |-> x, st |-> kd]
               ELSE CASE e.op = "info" -> Is(InfoText(D, RecOf(f[1]), e.f))
                      [] e.op = "order" -> Is([strokes |-> [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> ByStrokes(z, f[i], f[j])]],
                                               qual |-> [i \in 1..Len(a) |-> [j \in 1..Len(a) |-> ByQName(z, f[i], f[j])]]])
                      [] e.op = "sort" -> \* two names may be of the same kanji
                           LET q == SortBy(z, SeqSet(f), e.how) IN Is(Repeated(q, f))
=============================================================================
