--------------------------------- MODULE Ucd ---------------------------------
(* The Unicode data file. A row is a record of its cells (text by column) plus *)
(* cp: the code points of its name and of each of its link names (a spec text  *)
(* cannot be taken apart into code points).                                    *)
(* State: recs (name -> record), order (names in file order), jin (link name   *)
(* -> name of the jinmei row that claims it), bad (a load failed).             *)
EXTENDS Integers, Sequences, TLC
CF == INSTANCE ColumnFile
Num == INSTANCE KanjiNumbers
Cls == INSTANCE CharClass
Conv == INSTANCE Converter
T == INSTANCE Text

Val(x) == [v |-> x]
Err(m) == [E |-> "DomainError", m |-> m]
Fail(x) == "E" \in DOMAIN x
UFresh == [recs |-> <<>>, order |-> <<>>, jin |-> <<>>, bad |-> FALSE]   \* <<>> = function with empty domain

HexD == "0123456789ABCDEF"
RECURSIVE HexN(_, _)
HexN(n, w) == IF n < 16 /\ w <= 1 THEN SubSeq(HexD, n + 1, n + 1) ELSE HexN(n \div 16, w - 1) \o SubSeq(HexD, (n % 16) + 1, (n % 16) + 1)
Uni(n) == HexN(n, 4)
UniSq(n) == "[" \o Uni(n) \o "]"

Bytes1(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE ByteLen(_)
ByteLen(q) == IF q = <<>> THEN 0 ELSE Bytes1(q[1]) + ByteLen(Tail(q))
IsMark(c) == Cls!IsNonSpacing(c)
OneKanji(q) == /\ (Len(q) = 1 \/ (Len(q) = 2 /\ IsMark(q[2]))) /\ (Cls!In("common", q[1]) \/ Cls!In("rare", q[1]))

LinkTypes == <<"Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*", "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional">>
SourceOrder == <<"G", "H", "J", "K", "T", "V">>
SeqSet(q) == {q[i] : i \in 1..Len(q)}

EntryErr(code, name, cp) == IF ~OneKanji(cp) THEN "name '" \o name \o "' isn't a recognized Kanji"
                            ELSE IF code # cp[1] THEN "code '" \o Uni(code) \o "' doesn't match '" \o Uni(cp[1]) \o "'" ELSE ""

LinkNamesOf(rw) == T!Pieces(rw.LinkNames, ",")
LinkCodesOf(rw) == T!Pieces(rw.LinkCodes, ",")

\* every reason for which a row must be rejected (with several, any one of them is a fair answer)
Errors(z, rw, file, n) ==
  LET f == [name |-> file, row |-> n]
      sfx == " - file: " \o file \o ", row: " \o ToString(n)
      E(m) == m \o sfx
      If(c, m) == IF c THEN {m} ELSE {}
      rad == CF!ToNum(f, "Radical", rw.Radical, "0")
      jo == CF!ToBool(f, "Joyo", rw.Joyo)
      ji == CF!ToBool(f, "Jinmei", rw.Jinmei)
      joyo == jo = Val(TRUE)
      jinmei == ji = Val(TRUE)
      ln == LinkNamesOf(rw)
      lc == LinkCodesOf(rw)
      LinkErr(i) == IF i > Len(lc) THEN {E("LinkNames has more values than LinkCodes")}
                    ELSE LET c == CF!ToCode(f, "LinkCodes", lc[i], ByteLen(rw.cp.codes[i]))
                             m == IF Fail(c) THEN "" ELSE EntryErr(c.v, ln[i], rw.cp.links[i])
                         IN IF Fail(c) THEN {c.m} ELSE If(m # "", m)
      st == CF!ToNum(f, "Strokes", rw.Strokes, "255")
      vs == CF!ToNum(f, "VStrokes", rw.VStrokes, "255")
      strokes == IF rw.VStrokes = "" THEN (IF Fail(st) THEN st ELSE Num!Strokes1(T!NumOf(st.v)))
                 ELSE IF Fail(st) THEN st ELSE IF Fail(vs) THEN vs ELSE Num!Strokes2(T!NumOf(st.v), T!NumOf(vs.v))
      code == CF!ToCode(f, "Code", rw.Code, ByteLen(rw.cp.code))
      em == IF Fail(code) THEN code.m ELSE EntryErr(code.v, rw.Name, rw.cp.name)
      mor == Num!MParse(rw.MorohashiId)
      src == rw.Sources
      Src(m) == E("sources '" \o src \o "' " \o m)
      S(i) == T!Ch(src, i)
  IN If(rw.On = "" /\ rw.Kun = "" /\ rw.MorohashiId = "" /\ rw.JSource = "", E("one of 'On', 'Kun', 'Morohashi' or 'JSource' must be populated"))
     \cup If(ByteLen(rw.cp.name) > 4, E("name more than 4 bytes"))
     \cup (IF Fail(rad) THEN {rad.m} ELSE If(Len(rad.v) > 3 \/ T!NumOf(rad.v) \notin 1..214, E("radical '" \o rad.v \o "' out of range")))
     \cup (IF Fail(jo) THEN {jo.m} ELSE {}) \cup (IF Fail(ji) THEN {ji.m} ELSE {})
     \cup If(joyo /\ jinmei, E("can't be both joyo and jinmei"))
     \cup If(joyo /\ rw.Meaning = "", E("meaning is empty for Jōyō Kanji"))
     \cup (IF rw.LinkNames # "" THEN UNION {LinkErr(i) : i \in 1..Len(ln)}
             \cup If(joyo, E("joyo shouldn't have links")) \cup If(rw.LinkType = "", E("LinkNames has a value, but LinkType is empty"))
           ELSE IF rw.LinkType # "" THEN {E("LinkType has a value, but LinkNames is empty")}
           ELSE If(rw.LinkCodes # "", E("LinkCodes has a value, but LinkNames is empty")))
     \cup (IF jinmei /\ rw.LinkNames # "" THEN
             {E("jinmei entry '" \o rw.Name \o "' with link '" \o ln[i] \o "' failed - link already points to '" \o (IF ln[i] \in DOMAIN z.jin THEN z.jin[ln[i]] ELSE rw.Name) \o "'") :
                i \in {i \in 1..Len(ln) : ln[i] \in DOMAIN z.jin \/ \E j \in 1..(i - 1) : ln[j] = ln[i]}} ELSE {})
     \cup (IF Fail(strokes) THEN {E(strokes.m)} ELSE {})
     \cup If(em # "", E(em))
     \cup If(rw.LinkType # "" /\ rw.LinkType \notin SeqSet(LinkTypes), E("name '" \o rw.LinkType \o "' not found"))
     \cup If(Len(src) > 6, Src("exceeds max size"))
     \cup {Src("has unrecognized value: " \o S(i)) : i \in {i \in 1..Len(src) : S(i) \notin SeqSet(SourceOrder)}}
     \cup {Src("has duplicate value: " \o S(i)) : i \in {i \in 1..Len(src) : \E j \in 1..(i - 1) : S(j) = S(i)}}
     \cup (IF Fail(mor) THEN {E(mor.m)} ELSE {})
     \cup If(rw.Name \in DOMAIN z.recs, E("duplicate entry '" \o rw.Name \o "'"))

\* readings: spaces become commas, On in katakana, Kun in hiragana
Comma(t) == [i \in 1..Len(t) |-> IF T!Ch(t, i) = " " THEN "," ELSE T!Ch(t, i)]
Kana(t, target) == Conv!Cat(Conv!ToKana(Comma(t), target, 0))
Readings(on, kun) ==
  LET a == Kana(on, "Katakana")
      b == Kana(kun, "Hiragana")
  IN IF kun = "" THEN a ELSE IF on = "" THEN b ELSE a \o "、" \o b

Cat(q) == T!Join(q, "")
\* the record of an accepted row
Rec(rw) ==
  LET ln == IF rw.LinkNames = "" THEN <<>> ELSE LinkNamesOf(rw)
      v == T!NumOf(rw.Strokes)
      trad == rw.LinkType \in {"Traditional", "Traditional*"}
  IN [code |-> rw.cp.name[1], name |-> rw.Name, block |-> rw.Block, version |-> rw.Version, radical |-> T!NumOf(rw.Radical),
      strokes |-> v, var |-> T!NumOf(rw.VStrokes), pinyin |-> rw.Pinyin, moro |-> Num!MText(Num!MParse(rw.MorohashiId).v),
      nelson |-> rw.NelsonIds, sources |-> Cat(SelectSeq(SourceOrder, LAMBDA x : T!Has(rw.Sources, x))), jsource |-> rw.JSource,
      joyo |-> rw.Joyo \in {"Y", "T"}, jinmei |-> rw.Jinmei \in {"Y", "T"},
      links |-> [i \in 1..Len(ln) |-> [code |-> rw.cp.links[i][1], name |-> ln[i]]],
      type |-> IF rw.LinkType = "" THEN "None" ELSE rw.LinkType,
      meaning |-> rw.Meaning, on |-> rw.On, kun |-> rw.Kun,
      has |-> ln # <<>>, trad |-> trad, nontrad |-> ln # <<>> /\ ~trad,
      linkedReadings |-> rw.LinkType # "" /\ T!EndsWith(rw.LinkType, "*"),
      shown |-> UniSq(rw.cp.name[1]) \o " " \o rw.Name,
      shownLinks |-> T!Join([i \in 1..Len(ln) |-> UniSq(rw.cp.links[i][1]) \o " " \o ln[i]], ", ")]
WithKana(r) == [rec |-> r, kana |-> Readings(r.on, r.kun)]

Put(f, key, val) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN val ELSE f[x]]
RECURSIVE PutAll(_, _, _)
PutAll(f, q, val) == IF q = <<>> THEN f ELSE PutAll(Put(f, q[1], val), Tail(q), val)
AddRow(z, rw) ==
  LET e == Rec(rw) IN
  [z EXCEPT !.recs = Put(@, e.name, e), !.order = Append(@, e.name),
            !.jin = IF e.jinmei THEN PutAll(@, [i \in 1..Len(e.links) |-> e.links[i].name], e.name) ELSE @]
\* [errs, st]: the fair answers if the rows cannot be loaded, else the new state
RECURSIVE LoadRows(_, _, _, _)
LoadRows(z, rows, file, n) ==
  IF n > Len(rows) THEN [errs |-> {}, st |-> z]
  ELSE LET q == Errors(z, rows[n], file, n) IN IF q # {} THEN [errs |-> q, st |-> [z EXCEPT !.bad = TRUE]] ELSE LoadRows(AddRow(z, rows[n]), rows, file, n + 1)

\* names in code point order
RECURSIVE ByCode(_, _)
ByCode(recs, S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : recs[x].code <= recs[y].code IN <<m>> \o ByCode(recs, S \ {m})

\* base: the name without its variation selector (vs: it had one)
FindName(z, base, vs) == IF vs THEN (IF base \in DOMAIN z.jin THEN z.jin[base] ELSE "") ELSE IF base \in DOMAIN z.recs THEN base ELSE ""
UApply(z, e) ==
  CASE e.op = "new" -> [ok |-> e.r = Val(0), exp |-> Val(0), st |-> UFresh]
    [] e.op = "load" -> LET l == LoadRows(z, e.rows, e.file, 1) IN
         [ok |-> IF l.errs = {} THEN e.r = Val(0) ELSE Fail(e.r) /\ e.r.E = "DomainError" /\ e.r.m \in l.errs, exp |-> l.errs, st |-> l.st]
    [] e.op = "names" -> LET x == Val(ByCode(z.recs, DOMAIN z.recs)) IN [ok |-> e.r = x, exp |-> x, st |-> z]
    [] e.op = "get" -> LET n == FindName(z, e.base, e.vs)
                           x == IF n = "" THEN Val([none |-> TRUE, kana |-> "", meaning |-> ""]) ELSE Val(WithKana(z.recs[n]))
                       IN [ok |-> e.r = x, exp |-> x, st |-> z]
    \* one row of a large file and the record loaded for it
    [] e.op = "one" -> LET x == Val(WithKana(Rec(e.row))) IN [ok |-> e.r = x, exp |-> x, st |-> z]
=============================================================================
