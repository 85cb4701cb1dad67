-------------------------------- MODULE MCGroups -------------------------------
(* Every pair of rows (with a few names and member lists) as pattern and as     *)
(* meaning groups: what is loaded is complete, the map is exactly the inverse   *)
(* of the members, a kanji is mapped to one pattern group only (the first) and  *)
(* every further mention is reported.                                           *)
EXTENDS Groups, Json
CONSTANTS Names, Members
VARIABLES x, y
NameForms == << <<"", "">>, <<"北", "北">>, <<"北：ア", "北">>, <<"：ア", "：">>, <<"ア", "ア">>, <<"南：イ", "南">>, <<"北a", "北">>, <<"杏：ア", "杏">>, <<"東：", "東">> >>
MemberForms == <<"", "北", "北,南", "南,東", "北,南,東", "南,北", "北,南,北", "北,北,南,南", "北,", "北,,南", "杏,北", "東,南,杏,西">>
Z == [recs |-> ("北" :> 1) @@ ("南" :> 2) @@ ("東" :> 3), compat |-> ("西" :> "東")]
W(a, i) == [num |-> ToString(i), name |-> NameForms[a[1]][1], first |-> NameForms[a[1]][2], members |-> MemberForms[a[2]]]
Init == x \in Names \X Members /\ y \in Names \X Members
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Check(meaning) ==
  LET rows == <<W(x, 1), W(y, 2)>>
      g == Rows(Z, Empty, rows, meaning, 1)
      at(n) == {i \in 1..Len(g.list) : \E j \in 1..Len(g.list[i].members) : g.list[i].members[j] = n}
  IN IF g.fail # "" THEN Len(g.list) < 2
     ELSE /\ Len(g.list) = 2
          /\ \A i \in 1..2 : LET q == g.list[i].members IN
               /\ Len(q) \in 2..MaxSize /\ \A j \in 1..Len(q) : q[j] \in DOMAIN Z.recs /\ \A k \in 1..(j - 1) : q[k] # q[j]
               /\ ~meaning /\ T!Has(g.list[i].name, Colon) /\ ~T!StartsWith(g.list[i].name, Colon) => q[1] = rows[i].first
          /\ DOMAIN g.map = {n \in DOMAIN Z.recs : at(n) # {}}
          /\ \A n \in DOMAIN g.map : LET m == g.map[n] IN
               IF meaning THEN {m[i] : i \in 1..Len(m)} = at(n) /\ Len(m) = Cardinality(at(n)) ELSE m = <<CHOOSE i \in at(n) : \A j \in at(n) : i <= j>>
          /\ Len(g.errs) = IF meaning THEN 0 ELSE Cardinality({n \in DOMAIN g.map : Cardinality(at(n)) = 2})
Inv == Check(TRUE) /\ Check(FALSE)
Emit == PrintT("HIST " \o ToJson(<<x, y>>))
=============================================================================
