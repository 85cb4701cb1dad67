----------------------------- MODULE MCUcdScript ------------------------------
(* Every file of up to three records taken from a list of forms: whatever the   *)
(* links say, a row is only given readings that some record has, "*" marks      *)
(* exactly the readings that are not a kanji's own, a link leads to a kanji     *)
(* that is worth it, the order of the records does not matter and a record      *)
(* that nothing refers to does not change what the other rows say.              *)
EXTENDS UcdScript, Json
CONSTANTS Forms3, MaxRecs, NCodes
VARIABLE w
Codes == SubSeq(<<"4E00", "4E07", "6F97", "9F98">>, 1, NCodes)
\* what a record can say about the others: b and c are the codes of the two that follow (cyclically)
Base(cp) == [cp |-> cp, age |-> "1.1", blk |-> "CJK", rad |-> "1", simple |-> FALSE, rest |-> "2", srcs |-> [l \in {"G", "H", "J", "K", "T", "V"} |-> ""],
  strokes |-> <<3>>, adobe |-> <<>>, pinyin |-> <<>>, on |-> "", kun |-> "", jap |-> "", moro |-> <<>>, nelson |-> <<>>,
  joyo |-> [k |-> "", to |-> ""], jin |-> [k |-> "", to |-> ""], trad |-> <<>>, simp |-> <<>>, compat |-> "", sem |-> <<>>, def |-> <<>>, text |-> ""]
T(v) == [k |-> "t", v |-> v]
C == [k |-> "c", v |-> ""]
U(v) == [k |-> "u", v |-> v]
H(v) == [k |-> "h", v |-> v]
X == [k |-> "x", v |-> ""]
Def(q, d) == [q EXCEPT !.def = d]
OnOf(cp) == "ON" \o cp
Form(f, cp, b, c) ==
  LET z == Base(cp)
      r == [z EXCEPT !.on = OnOf(cp), !.text = "m"]
      m == [z EXCEPT !.moro = <<<<"0", "1", "'">>>>]
  IN CASE f = 1 -> r
       [] f = 2 -> z
       [] f = 3 -> m
       [] f = 4 -> Def(m, <<<<X, T("same"), C, U(b), U(c)>>, <<>>>>)
       [] f = 5 -> Def(z, <<<<X, T("same"), C, U(c)>>, <<X, T("variant"), C, H(b)>>, <<>>>>)
       [] f = 6 -> [z EXCEPT !.trad = <<cp, b, c>>]
       [] f = 7 -> [m EXCEPT !.trad = <<c>>, !.simp = <<b>>]
       [] f = 8 -> [m EXCEPT !.simp = <<cp, c, b>>]
       [] f = 9 -> [m EXCEPT !.compat = b, !.sem = <<c>>]
       [] f = 10 -> [r EXCEPT !.sem = <<b>>, !.trad = <<c>>]
       [] f = 11 -> [r EXCEPT !.jin = [k |-> "u", to |-> b]]
       [] f = 12 -> [r EXCEPT !.jin = [k |-> "y", to |-> ""]]
       [] f = 13 -> [r EXCEPT !.joyo = [k |-> "u", to |-> b]]
       [] f = 14 -> [r EXCEPT !.joyo = [k |-> "y", to |-> ""]]
       [] f = 15 -> Def([z EXCEPT !.nelson = <<<<"0", "7">>>>], <<<<X, T("variant"), C, U(b), X, T("variant"), C, T("same"), C, U(c)>>, <<>>>>)
       [] f = 16 -> [r EXCEPT !.simple = TRUE]
       [] f = 17 -> [m EXCEPT !.sem = <<b, c>>, !.srcs["J"] = "J0"]
       [] f = 18 -> Def(r, <<<<X, T("Variant"), C, H(b), X, T("same"), C, T("Variant"), C, U(c)>>, <<>>>>)
NxI(i) == IF i = NCodes THEN 1 ELSE i + 1
Rec(i, f) == Form(f, Codes[i], Codes[NxI(i)], Codes[NxI(NxI(i))])
File(q) == [i \in 1..Len(q) |-> Rec(i, q[i])]
Init == w = <<>>
Next == Len(w) < MaxRecs /\ \E f \in IF Len(w) = 3 THEN Forms3 ELSE 1..18 : w' = Append(w, f)
Spec == Init /\ [][Next]_w
Out(rs) == LET a == Populate(rs) l == Links(a, rs) IN [a |-> a, l |-> l, ps |-> Prints(a, l.rl, rs)]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RowSet(x) == LET R == Rows(x.ps) IN {R[i].row : i \in 1..Len(R)}
\* two records that store readings for the same kanji, or name it as their standard form
Conflict(rs) == LET S(q) == IF Own(q) /\ ~Skipped(q) THEN {Targets(q)[i] : i \in 1..Len(Targets(q))} ELSE {} IN
  \E i, j \in 1..Len(rs) : i # j /\ S(rs[i]) \cap S(rs[j]) # {}
Inv ==
  LET rs == File(w)
      x == Out(rs)
      R == Rows(x.ps)
      ons == {rs[i].on : i \in 1..Len(rs)}
      codes == {rs[i].cp : i \in 1..Len(rs)}
      stars == {"Jinmei*", "Traditional*", "Simplified*", "Compatibility*", "Definition*", "Semantic*"}
  IN /\ \A k \in DOMAIN x.l.rl \ DOMAIN ManualLinks : HasReading(x.a, x.l.rl[k])
     /\ \A i \in 1..Len(R) : LET row == R[i].row IN
          /\ row.on \in ons
          /\ (row.type \in stars) = (R[i].linked)
          /\ R[i].linked => ~HasReading(x.a, row.cp) /\ row.on # ""
          /\ (row.links = <<>>) = (row.type = "")
          /\ \A j \in 1..Len(row.links) : row.links[j] # row.cp /\ (HasReading(x.a, row.links[j]) \/ HasJapanId(x.a, row.links[j]) \/ row.links[j] \in DOMAIN x.l.rl \/ row.type = "Jinmei")
          /\ row.on # "" \/ row.moro # "" \/ row.js # ""
     /\ \A i, j \in 1..Len(R) : i < j => \E m, n \in 1..Len(rs) : m < n /\ rs[m].cp = R[i].row.cp /\ rs[n].cp = R[j].row.cp
     /\ ~Conflict(rs) => RowSet(Out(Rev(rs))) = RowSet(x)
     /\ Len(w) = 3 /\ w[3] \in {1, 2, 3, 14} /\ (\A i \in 1..2 : w[i] \in {1, 2, 3, 14, 12}) => RowSet(Out(File(SubSeq(w, 1, 2)))) \subseteq RowSet(x)
Emit == PrintT("HIST " \o ToJson(w))
=============================================================================
