----------------------------- MODULE MCQuizReport -----------------------------
(* Over the pairs of rows of MCGroups that load without a complaint: the type  *)
(* lines of a report add up to the kanji of the groups, the lines on kanji in  *)
(* several groups to the entries, and the short report is part of the long.    *)
EXTENDS MCGroups, QuizReport
Kj(n, t, l, f) == [n |-> n, type |-> t, level |-> l, freq |-> f, kyu |-> "None"]
ZR == [recs |-> ("北" :> Kj("北", "Jouyou", "N5", 1)) @@ ("南" :> Kj("南", "Jinmei", "N1", 2)) @@ ("東" :> Kj("東", "Jinmei", "None", 0)) @@ ("葉" :> Kj("葉", "Ucd", "None", 0)),
       compat |-> ("西" :> "東"), types |-> [t \in {KD!TypeList[i] : i \in 1..8} |-> CASE t = "Jouyou" -> <<"北">> [] t = "Jinmei" -> <<"東", "南">> [] t = "Ucd" -> <<"葉">> [] OTHER -> <<>>]]
DR == [cps |-> <<[n |-> "北"], [n |-> "南"], [n |-> "東"], [n |-> "葉"]>>]
Rws == <<W(x, 1), W(y, 2)>>
RowsCp == [i \in 1..2 |-> [cp |-> <<21271>>]]
CountIn(g, S) == Cardinality(DOMAIN g.map \cap S)
Right(meaning) ==
  LET g == Rows(ZR, Empty, Rws, meaning, 1)
      long == T!Pieces(GroupsText(DR, ZR, g, RowsCp, meaning, TRUE), "\n")
      short == T!Pieces(GroupsText(DR, ZR, g, RowsCp, meaning, FALSE), "\n")
      types == SelectSeq([i \in 1..8 |-> KD!TypeList[i]], LAMBDA t : TypeLine(ZR, DOMAIN g.map, t) # "")
      multi == SelectSeq(DR.cps, LAMBDA c : c.n \in DOMAIN g.map /\ Len(g.map[c.n]) > 1)
  IN g.fail = "" /\ g.errs = <<>> =>
     /\ \A t \in 1..8 : LET q == ZR.types[KD!TypeList[t]] IN (TypeLine(ZR, DOMAIN g.map, KD!TypeList[t]) # "") <=> CountIn(g, {q[i] : i \in 1..Len(q)}) > 0
     /\ Entries(g) = Cardinality(DOMAIN g.map) + (IF meaning THEN Len(multi) ELSE 0)
     /\ Len(types) >= 1 /\ Len(long) = Len(short) + 2 + Len(g.list)
     /\ \A i \in 1..Len(short) : \E j \in 1..Len(long) : long[j] = short[i]
     /\ (multi # <<>>) <=> T!Has(short[2], "Unique kanji")
ReportInv == Right(TRUE) /\ Right(FALSE)
=============================================================================
