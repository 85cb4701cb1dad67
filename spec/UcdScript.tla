------------------------------ MODULE UcdScript -------------------------------
(* scripts/parseUcdAllFlat.sh, the program that derives data/ucd.txt from the   *)
(* Unicode database: three passes over the records of the XML file.             *)
(*   populate  readings, definitions, Morohashi and JSource ids by code point   *)
(*   link      for 8 words and 3 bracketed sections each: "(same as X" gives a  *)
(*             kanji the readings of X                                          *)
(*   print     one row for a record that is worth it                            *)
(* A record of the file:                                                        *)
(*  [cp, age, blk, rad, simple, rest, srcs, strokes, adobe, pinyin, on, kun,    *)
(*   jap, moro, nelson, joyo, jin, trad, simp, compat, sem, def, text]          *)
(*  simple  the radical is followed by ' (a simplified radical)                 *)
(*  rest    what follows the '.' of kRSUnicode                                  *)
(*  srcs    [letter -> value] of the IRG sources                                *)
(*  moro, nelson   lists of ids, an id is a list of characters                  *)
(*  joyo, jin      [k |-> "" / "y" / "u", to |-> code of the link]              *)
(*  def     the sections (split at ')') of the definition: lists of items       *)
(*          [k, v]: t=type word, c=other text in [-,a-z0-9 ], x=other text,     *)
(*          u=a character outside of ASCII (v its code), h=U+v                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

LOCAL SeqSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN "" ELSE q[i] \o Cat(q, i + 1)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE NoZeros(_)
NoZeros(id) == IF id = <<>> \/ id[1] # "0" THEN id ELSE NoZeros(Tail(id))
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""

Types == <<"variant", "interchangeable", "same", "non-classical", "Variant", "standard", "simplified", "ancient">>
Passes == 3
ManualLinks == ("3D4E" :> "6F97") @@ ("5ECF" :> "5ED0") @@ ("9D25" :> "9D2A") @@ ("6AA8" :> "69D8")
\* Jinmei kanji whose link in the database points the wrong way
NoLink == {"4E98", "51DC", "5C2D", "5DCC", "6643", "6867", "69D9", "6E1A", "732A", "7422", "7950", "7962", "7977", "7984", "798E", "7A63", "840C", "9065"}
R2(on, kun) == [on |-> on, kun |-> kun]
Manual == ("34E4" :> R2("KATSU", "")) @@ ("3C7E" :> R2("KAI", "")) @@ ("3C83" :> R2("KYUU", "")) @@ ("4BC2" :> R2("SHIN", ""))
  @@ ("6479" :> R2("BO", "MO")) @@ ("6532" :> R2("KI", "KATAMUKU SOBADATERU")) @@ ("6663" :> R2("SEI SETSU", "AKIRAKA KASHIKOI"))
  @@ ("69D4" :> R2("KOU", "HANETSURUBE")) @@ ("7B53" :> R2("KEI", "KOUGAI KANZASHI")) @@ ("7CF1" :> R2("GETSU", "KOUJI MOYASHI")) @@ ("83C6" :> R2("SHU", ""))

\* ---- which records count
Own(q) == q.on # "" \/ q.kun # ""
JSrc(q) == q.srcs["J"]
Filter1(q) == Own(q) \/ JSrc(q) # "" \/ q.moro # <<>>
Skipped(q) == q.simple /\ q.rad \notin {"199", "211"}
\* the definition has a type word followed by a space or a comma (such text begins with one of these)
HasType(q) == \E i \in 1..Len(q.def) : \E j \in 1..Len(q.def[i]) : q.def[i][j].k = "t" /\ j < Len(q.def[i]) /\ q.def[i][j + 1].k = "c"
Filter2(q) == Filter1(q) \/ q.nelson # <<>> \/ HasType(q)

\* ---- populate
RECURSIVE UptoColon(_)
UptoColon(id) == IF id = <<>> \/ id[1] = ":" THEN <<>> ELSE <<IF id[1] = "'" THEN "P" ELSE id[1]>> \o UptoColon(Tail(id))
MoroId(q) == IF q.moro = <<>> THEN "" ELSE Cat(UptoColon(NoZeros(q.moro[1])), 1)
Targets(q) == IF q.joyo.k # "" THEN IF q.joyo.k = "u" THEN <<q.cp, q.joyo.to>> ELSE <<q.cp>>
              ELSE IF q.jin.k = "u" THEN <<q.cp, q.jin.to>> ELSE <<q.cp>>
Empty == [on |-> <<>>, kun |-> <<>>, def |-> <<>>, moro |-> <<>>, js |-> <<>>, back |-> <<>>, n |-> 0]
Pop1(a, q) ==
  IF ~Filter1(q) \/ Skipped(q) THEN a
  ELSE LET S == SeqSet(Targets(q))
           over(f, v) == [k \in S |-> v] @@ f
           b == [a EXCEPT !.moro = IF MoroId(q) = "" THEN @ ELSE (q.cp :> MoroId(q)) @@ @,
                          !.js = IF JSrc(q) = "" THEN @ ELSE (q.cp :> JSrc(q)) @@ @,
                          !.back = IF q.joyo.k = "" /\ q.jin.k = "u" THEN (q.jin.to :> q.cp) @@ @ ELSE @]
       IN IF ~Own(q) THEN b
          ELSE [b EXCEPT !.on = over(@, q.on), !.kun = over(@, q.kun), !.def = over(@, q.text), !.n = @ + Len(Targets(q))]
Populate(rs) == FoldLeft(Pop1, Empty, rs)
HasReading(a, cp) == Get(a.on, cp) # "" \/ Get(a.kun, cp) # ""
HasJapanId(a, cp) == Get(a.moro, cp) # "" \/ Get(a.js, cp) # ""

\* ---- links of the definitions
InClass(x) == x.k = "c" \/ (x.k = "t" /\ x.v # "Variant")
RECURSIVE SkipClass(_, _)
SkipClass(s, j) == IF j <= Len(s) /\ InClass(s[j]) THEN SkipClass(s, j + 1) ELSE j
RECURSIVE RunU(_, _)
RunU(s, j) == IF j <= Len(s) /\ s[j].k = "u" THEN <<s[j].v>> \o RunU(s, j + 1) ELSE <<>>
At(s, type) == {j \in 1..Len(s) : s[j].k = "t" /\ s[j].v = type}
Follow(s, j, k) == LET n == SkipClass(s, j + 1) IN n <= Len(s) /\ s[n].k = k
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the characters a section offers: those after the last mention of the type, if any mention is followed by some
UtfLinks(s, type) == IF \E j \in At(s, type) : Follow(s, j, "u") THEN LET j == MaxOf(At(s, type)) IN RunU(s, SkipClass(s, j + 1)) ELSE <<>>
UniLinks(s, type) == LET S == {j \in At(s, type) : Follow(s, j, "h")} IN IF S = {} THEN <<>> ELSE <<s[SkipClass(s, MaxOf(S) + 1)].v>>
LinkFile(rs) == SelectSeq(rs, LAMBDA q : ~q.simple /\ HasType(q))
First(a, q) == LET S == {j \in 1..Len(q) : HasReading(a, q[j])} IN IF S = {} THEN "" ELSE q[CHOOSE j \in S : \A m \in S : j <= m]
\* [rl: code -> code, n: links found]: the record q adds a link unless it has one
LinkRec(a, x, q, type, p, uni) ==
  LET to == IF p > Len(q.def) \/ q.cp \in DOMAIN x.rl THEN "" ELSE First(a, IF uni THEN UniLinks(q.def[p], type) ELSE UtfLinks(q.def[p], type))
  IN IF to = "" THEN x ELSE [rl |-> (q.cp :> to) @@ x.rl, n |-> x.n + 1]
LinkRecs(a, rl, rs, type, p, uni) == FoldLeft(LAMBDA x, q : LinkRec(a, x, q, type, p, uni), [rl |-> rl, n |-> 0], rs)
LinkPass(a, rl, rs, type, p) ==
  LET u == LinkRecs(a, rl, rs, type, p, FALSE)
      h == LinkRecs(a, u.rl, rs, type, p, TRUE)
  IN [rl |-> h.rl, c |-> <<u.n, h.n>>]
LinkType(a, rl, rs, type) ==
  LET x == LinkPass(a, rl, rs, type, 1)
      y == LinkPass(a, x.rl, rs, type, 2)
      z == LinkPass(a, y.rl, rs, type, 3)
  IN [rl |-> z.rl, c |-> <<x.c, y.c, z.c>>]
RECURSIVE LinkTypes(_, _, _, _)
LinkTypes(a, x, rs, t) ==
  IF t > Len(Types) THEN x
  ELSE LET y == LinkType(a, x.rl, rs, Types[t]) IN LinkTypes(a, [rl |-> y.rl, c |-> (Types[t] :> y.c) @@ x.c], rs, t + 1)
Sum(c) == c[1][1] + c[1][2] + c[2][1] + c[2][2] + c[3][1] + c[3][2]
Links(a, rs) ==
  LET x == LinkTypes(a, [rl |-> <<>>, c |-> <<>>], LinkFile(rs), 1) IN [rl |-> ManualLinks @@ x.rl, c |-> x.c]

\* ---- print
CanLoad(a, rl, cp) == HasReading(a, cp) \/ cp \in DOMAIN rl
Good(a, rl, how, cp) == IF how = "load" THEN CanLoad(a, rl, cp) ELSE HasJapanId(a, cp)
RECURSIVE Trad(_, _, _, _, _, _)
Trad(a, rl, how, q, to, i) ==
  IF i > Len(q.trad) THEN to
  ELSE LET t == q.trad[i] IN Trad(a, rl, how, q, IF t # q.cp /\ t \notin SeqSet(to) /\ Good(a, rl, how, t) THEN Append(to, t) ELSE to, i + 1)
None == [to |-> <<>>, type |-> ""]
FirstGood(a, rl, how, l) == LET S == {i \in 1..Len(l) : Good(a, rl, how, l[i])} IN IF S = {} THEN "" ELSE l[CHOOSE i \in S : \A j \in S : i <= j]
GetLinks(a, rl, how, q) ==
  LET t == Trad(a, rl, how, q, <<>>, 1)
      s == FirstGood(a, rl, how, SelectSeq(q.simp, LAMBDA x : x # q.cp))
      m == FirstGood(a, rl, how, q.sem)
  IN IF t # <<>> THEN [to |-> IF how = "load" THEN Trad(a, rl, "id", q, t, 1) ELSE t, type |-> "Traditional"]
     ELSE IF s # "" THEN [to |-> <<s>>, type |-> "Simplified"]
     ELSE IF how # "load" THEN None
     ELSE IF q.compat # "" /\ CanLoad(a, rl, q.compat) THEN [to |-> <<q.compat>>, type |-> "Compatibility"]
     ELSE IF q.cp \in DOMAIN rl THEN [to |-> <<rl[q.cp]>>, type |-> "Definition"]
     ELSE IF ~HasReading(a, q.cp) /\ m # "" THEN [to |-> <<m>>, type |-> "Semantic"]
     ELSE None
Strokes(q) ==
  IF q.adobe = <<>> THEN [s |-> q.strokes[1], v |-> 0]
  ELSE LET n(x) == x.y + x.z
           s == n(q.adobe[1])
           D == {i \in 2..Len(q.adobe) : n(q.adobe[i]) # s}
           i == CHOOSE k \in D : \A m \in D : k <= m
           v == n(q.adobe[i])
       IN IF D = {} THEN [s |-> s, v |-> 0]
          ELSE IF i = 2 /\ ~q.simple /\ q.rad = ToString(q.adobe[2].rad) /\ q.rest = ToString(q.adobe[2].z) /\ q.strokes[1] = v THEN [s |-> v, v |-> s]
          ELSE [s |-> s, v |-> v]
\* what a record adds: row (skip: none is written), direct/linked readings, Joyo/Jinmei totals
PrintRec(a, rl, q) ==
  LET joyo == q.joyo.k # ""
      \* a Joyo entry that is only a link to the official form is not marked
      jmark == q.joyo.k = "y"
      jin == ~joyo /\ q.jin.k # ""
      how == IF ~joyo /\ ~jin THEN LET l == GetLinks(a, rl, "load", q) IN IF l.type # "" THEN l ELSE GetLinks(a, rl, "id", q) ELSE None
      canLoad == ~joyo /\ ~jin /\ GetLinks(a, rl, "load", q).type # ""
      to == IF ~jin THEN how.to
            ELSE IF q.jin.k = "u" THEN IF q.cp \in NoLink THEN <<>> ELSE <<q.jin.to>>
            ELSE IF q.cp \in DOMAIN a.back THEN <<a.back[q.cp]>> ELSE <<>>
      from0 == IF jin /\ q.jin.k = "u" THEN q.jin.to ELSE IF canLoad THEN how.to[1] ELSE ""
      direct == HasReading(a, q.cp)
      linked == ~direct /\ from0 # ""
      from == IF direct THEN q.cp ELSE IF HasReading(a, from0) THEN from0 ELSE Get(rl, from0)
      manual == ~direct /\ ~linked /\ q.cp \in DOMAIN Manual
      skip == ~direct /\ ~linked /\ ~manual /\ ~HasJapanId(a, q.cp)
      type == (IF jin THEN IF to = <<>> THEN "" ELSE "Jinmei" ELSE how.type) \o (IF linked THEN "*" ELSE "")
      rd == IF manual THEN Manual[q.cp] ELSE IF direct \/ linked THEN R2(Get(a.on, from), Get(a.kun, from)) ELSE R2("", "")
      st == Strokes(q)
      row == [cp |-> q.cp, name |-> q.cp, blk |-> q.blk, age |-> q.age, rad |-> q.rad, strokes |-> ToString(st.s), vstrokes |-> IF st.v = 0 THEN "" ELSE ToString(st.v),
              pinyin |-> IF q.pinyin = <<>> THEN "" ELSE q.pinyin[1], moro |-> Get(a.moro, q.cp), nelson |-> [i \in 1..Len(q.nelson) |-> Cat(NoZeros(q.nelson[i]), 1)],
              srcs |-> SelectSeq(<<"G", "H", "J", "K", "T", "V">>, LAMBDA l : q.srcs[l] # ""), js |-> Get(a.js, q.cp),
              joyo |-> IF jmark THEN "Y" ELSE "", jin |-> IF q.jin.k # "" THEN "Y" ELSE "", links |-> to, names |-> to, type |-> type,
              meaning |-> IF linked THEN Get(a.def, from) ELSE Get(a.def, q.cp), on |-> rd.on, kun |-> rd.kun, jap |-> q.jap]
  IN [skip |-> skip, row |-> row, direct |-> direct, linked |-> linked, joyo |-> jmark, jin |-> jin /\ to = <<>>, kind |-> IF jin /\ to # <<>> THEN "Jinmei" ELSE how.type]
Printed(rs) == SelectSeq(rs, LAMBDA q : Filter2(q) /\ ~Skipped(q))
\* every record of the file looked at, in order
Prints(a, rl, rs) == LET p == Printed(rs) IN [i \in 1..Len(p) |-> PrintRec(a, rl, p[i])]
Rows(ps) == SelectSeq(ps, LAMBDA x : ~x.skip)
Totals(ps) ==
  LET n(S) == Cardinality(S)
      I == 1..Len(ps)
      W == {i \in I : ~ps[i].skip}
      kind(t) == n({i \in W : ps[i].kind = t})
      reading == n({i \in W : ps[i].row.on # "" \/ ps[i].row.kun # ""})
      direct == n({i \in I : ps[i].direct})
      linked == n({i \in I : ps[i].linked})
  IN [wrote |-> n(W), js |-> n({ps[i].row.js : i \in W} \ {""}), moro |-> n({ps[i].row.moro : i \in W} \ {""}),
      nelson |-> n(UNION {SeqSet(ps[i].row.nelson) : i \in W}), joyo |-> n({i \in I : ps[i].joyo}), jin |-> n({i \in I : ps[i].jin}),
      kinds |-> <<kind("Jinmei"), kind("Traditional"), kind("Simplified"), kind("Compatibility"), kind("Definition"), kind("Semantic")>>,
      meaning |-> n({i \in W : ps[i].row.meaning # ""}), pinyin |-> n({i \in W : ps[i].row.pinyin # ""}), reading |-> reading, direct |-> direct, linked |-> linked]

\* ---- the run as a state machine: "file" hands over the records, then the output is read piece by piece
SInit(i) == [a |-> Empty, l |-> [rl |-> <<>>, c |-> <<>>], ps |-> <<>>, rows |-> <<>>]
RECURSIVE TotalLinks(_, _)
TotalLinks(c, t) == IF t > Len(Types) THEN 0 ELSE Sum(c[Types[t]]) + TotalLinks(c, t + 1)
USApply(z, e) ==
  LET out(exp, st) == [ok |-> e.r = [v |-> exp], exp |-> exp, st |-> st] IN
  CASE e.op = "file" ->
         LET a == Populate(e.recs)
             l == Links(a, e.recs)
             ps == Prints(a, l.rl, e.recs)
         IN out([readings |-> a.n, moro |-> Cardinality(DOMAIN a.moro), js |-> Cardinality(DOMAIN a.js), found |-> Cardinality(DOMAIN l.rl)], [a |-> a, l |-> l, ps |-> ps, rows |-> Rows(ps)])
    [] e.op = "type" -> out([total |-> Sum(z.l.c[e.type]), c |-> z.l.c[e.type]], z)
    [] e.op = "manual" -> out(Cardinality(DOMAIN z.l.rl) - TotalLinks(z.l.c, 1), z)
    [] e.op = "row" -> IF z.rows = <<>> THEN out([none |-> "no more rows"], z) ELSE out(z.rows[1].row, [z EXCEPT !.rows = Tail(@)])
    [] e.op = "end" -> IF z.rows # <<>> THEN out(z.rows[1].row, z) ELSE out(Totals(z.ps), z)
    [] e.op = "use" -> out(e.want, z)
===============================================================================
