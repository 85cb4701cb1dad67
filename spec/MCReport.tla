------------------------------- MODULE MCReport -------------------------------
(* Over the directories of MCKanjiData: where the load reports no error, the   *)
(* types, the grades of jouyou kanji, the levels, the kyus and the radicals    *)
(* each divide the loaded kanji, so every line of a breakdown adds up to its   *)
(* total and the totals to the number of kanji loaded.                         *)
EXTENDS MCKanjiData, KanjiReport
SumOf(S, F(_)) == LET f[T1 \in SUBSET S] == IF T1 = {} THEN 0 ELSE LET e == CHOOSE e \in T1 : TRUE IN F(e) + f[T1 \ {e}] IN f[S]
Idx(q) == 1..Len(q)
Divides(z, list, F(_)) ==
  LET q == WithNone(list)
      all(v) == {n \in DOMAIN z.recs : F(z.recs[n]) = v}
      of(v, t) == Pick(z, z.types[t], LAMBDA k : F(k) = v)
  IN /\ SumOf(Idx(q), LAMBDA i : Cardinality(all(q[i]))) = Cardinality(DOMAIN z.recs)
     /\ \A i \in Idx(q) : SumOf(Idx(TypeList), LAMBDA t : Len(of(q[i], TypeList[t]))) = Cardinality(all(q[i]))
Lines(t) == T!Lines(t)
Blank(t) == T!Replace(t, "\n", "")
ReportInv == LET z == Load(DD)
                 R == Report(DD, z, TRUE)
                 I == Report(DD, z, FALSE)
             IN z.errs = <<>> =>
  /\ SumOf(Idx(TypeList), LAMBDA t : Len(z.types[TypeList[t]])) = Cardinality(DOMAIN z.recs)
  /\ Divides(z, LevelList, LAMBDA k : k.level) /\ Divides(z, KyuList, LAMBDA k : k.kyu) /\ Divides(z, GradeList, LAMBDA k : k.grade)
  /\ \A n \in DOMAIN z.recs : (z.recs[n].grade # "None") <=> z.recs[n].type = "Jouyou"
  \* the short report is part of the long one; every line is complete
  /\ \A i \in Idx(Lines(I)) : \E j \in Idx(Lines(R)) : Lines(R)[j] = Lines(I)[i]
  /\ ~T!Has(R, ", )") /\ ~T!Has(R, "()") /\ T!EndsWith(R, "\n")
EmitOk == Load(DD).errs = <<>> => Emit
RSpec == Init /\ [][Next]_<<x, y>>
=============================================================================
