-------------------------------- MODULE Groups --------------------------------
(* The group files, given the kanji data z (see KanjiData). A row is           *)
(* [num, name, first (first character of the name), members]; all text.        *)
(* Result: list (groups), map (kanji -> indexes of its groups), errs (messages *)
(* printed), fail (the fatal error, if any).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
KD == INSTANCE KanjiData
T == INSTANCE Text
CF == INSTANCE ColumnFile
Colon == "："
MaxSize == 58
AnyAscii(t) == \E i \in 1..Len(t) : T!Printable(T!Ch(t, i))
KindOf(meaning, name) == IF meaning THEN "Meaning" ELSE IF T!StartsWith(name, Colon) THEN "Peer" ELSE IF T!Has(name, Colon) THEN "Family" ELSE "Reading"
NamesOf(w, kind) == (IF kind = "Family" THEN <<w.first>> ELSE <<>>) \o (IF w.members = "" THEN <<>> ELSE T!Pieces(w.members, ","))
Title(num, name) == "[" \o num \o " " \o name \o "]"
\* names that occur more than once, in order
RECURSIVE Dups(_, _)
Dups(q, i) == IF i > Len(q) THEN <<>>
              ELSE (IF (\E j \in (i + 1)..Len(q) : q[j] = q[i]) /\ ~\E j \in 1..(i - 1) : q[j] = q[i] THEN <<q[i]>> ELSE <<>>) \o Dups(q, i + 1)
Wrong(q) == LET d == Dups(q, 1) IN
  CASE Len(q) = 0 -> "no members" [] Len(q) = 1 -> "only one member" [] Len(q) > MaxSize -> "more than " \o ToString(MaxSize) \o " members"
    [] d # <<>> -> ToString(Len(d)) \o " duplicate member" \o (IF Len(d) > 1 THEN "s: " ELSE ": ") \o T!Join(d, " ") [] OTHER -> ""
Show(g) == "[" \o (IF g.kind = "Peer" THEN "Peers " \o g.members[1] ELSE "") \o g.name \o "]"
\* adding a group's members to the map: a kanji is in one pattern group only
RECURSIVE AddAll(_, _, _, _, _)
AddAll(g, q, n, meaning, i) ==
  IF i > Len(q) THEN g
  ELSE AddAll(IF q[i] \notin DOMAIN g.map THEN [g EXCEPT !.map = (q[i] :> <<n>>) @@ @]
              ELSE IF meaning THEN [g EXCEPT !.map[q[i]] = Append(@, n)]
              ELSE LET o == g.list[g.map[q[i]][1]]
                       own == g.list[n]
                   IN [g EXCEPT !.errs = Append(@, q[i] \o " from " \o Title(own.num, own.name) \o " already in " \o Title(o.num, o.name))],
              q, n, meaning, i + 1)
Row(z, g, w, meaning, i) ==
  LET f == [name |-> IF meaning THEN "meaning-groups.txt" ELSE "pattern-groups.txt", row |-> i]
      stop(m) == [g EXCEPT !.fail = CF!ErrMsg(m, f)]
      kind == KindOf(meaning, w.name)
      names == NamesOf(w, kind)
      found == [j \in 1..Len(names) |-> KD!FindByName(z, names[j])]
      lost == SelectSeq([j \in 1..Len(names) |-> <<names[j], found[j]>>], LAMBDA x : x[2] = "")
      num == CF!ToNum(f, "Number", w.num, "65535")
      wrong == Wrong(found)
      n == CF!Canon(w.num)
  IN IF w.name = "" THEN stop("group must have a name")
     ELSE IF AnyAscii(w.name) THEN stop("group name must be all MB characters")
     ELSE IF T!EndsWith(w.members, ",") THEN stop("members ends with ,")
     ELSE IF lost # <<>>
          THEN [stop("group failed to load all members") EXCEPT
                !.errs = @ \o [j \in 1..Len(lost) |-> "failed to find member " \o lost[j][1] \o " in group: '" \o w.name \o "', number: " \o w.num]]
     ELSE IF "E" \in DOMAIN num THEN stop(num.m)
     ELSE IF wrong # "" THEN stop("group " \o Title(n, w.name) \o " has " \o wrong)
     ELSE AddAll([g EXCEPT !.list = Append(@, [num |-> n, name |-> w.name, kind |-> kind, members |-> found])], found, Len(g.list) + 1, meaning, 1)
Empty == [list |-> <<>>, map |-> <<>>, errs |-> <<>>, fail |-> ""]
RECURSIVE Rows(_, _, _, _, _)
Rows(z, g, rows, meaning, i) == IF i > Len(rows) \/ g.fail # "" THEN g ELSE Rows(z, Row(z, g, rows[i], meaning, i), rows, meaning, i + 1)
GLoad(z, meaning, pattern) ==
  LET m == Rows(z, Empty, meaning, TRUE, 1)
      p == IF m.fail # "" THEN Empty ELSE Rows(z, Empty, pattern, FALSE, 1)
  IN [m |-> m, p |-> p, errs |-> m.errs \o p.errs, fail |-> m.fail \o p.fail]
Listed(g) == [i \in 1..Len(g.list) |-> LET x == g.list[i] IN
  [n |-> T!NumOf(x.num), name |-> x.name, type |-> IF x.kind = "Meaning" THEN "Meaning" ELSE "Pattern", kind |-> x.kind, str |-> Title(x.num, x.name), show |-> Show(x), members |-> x.members]]
SameMap(v, g) == Len(v) = Cardinality(DOMAIN g.map) /\ \A i \in 1..Len(v) : v[i].k \in DOMAIN g.map /\ v[i].g = g.map[v[i].k]
GApply(kd, e) ==
  CASE e.op = "data" -> LET y == KD!Load(e.D) IN [ok |-> y.fail = {} /\ e.r = [v |-> y.errs], exp |-> y.fail \cup KD!SeqSet(y.errs), st |-> [D |-> e.D, z |-> y]]
    [] e.op = "groups" ->
         LET x == GLoad(kd.z, e.meaning, e.pattern)
             exp == IF x.fail # "" THEN [fail |-> x.fail, errs |-> x.errs]
                    ELSE [fail |-> "", errs |-> x.errs, meaning |-> Listed(x.m), pattern |-> Listed(x.p), mmap |-> x.m.map, pmap |-> x.p.map]
             v == e.r.v
         IN [ok |-> "v" \in DOMAIN e.r /\ v.fail = x.fail /\ v.errs = x.errs
                    /\ (x.fail = "" => v.meaning = exp.meaning /\ v.pattern = exp.pattern /\ SameMap(v.mmap, x.m) /\ SameMap(v.pmap, x.p)), exp |-> exp, st |-> kd]
=============================================================================
