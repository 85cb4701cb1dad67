----------------------------- MODULE MCKanjiData ------------------------------
(* Two names placed in every combination of files around a jouyou kanji B and  *)
(* a jinmei kanji M. Whatever the loading procedure does step by step, each    *)
(* name must end up with the type of the first source that names it, listed    *)
(* once, under exactly its fields; every further mention is reported.          *)
(*   jou, jin, ext  a row of that file;  lnk  linked to B;  old / jold  an old *)
(*   name of B / M;  frq, kyu  in those lists (every name is in the Unicode data) *)
EXTENDS KanjiData, Json, FiniteSets
CONSTANTS YSets
VARIABLES x, y
Places == {"jou", "lnk", "old", "jin", "jold", "ext", "frq", "kyu"}
Row(n, code, joyo, jinmei, link) == [Code |-> "4E00", Name |-> n, Block |-> "", Version |-> "", Radical |-> "1", Strokes |-> "2", VStrokes |-> "", Pinyin |-> "",
   MorohashiId |-> "", NelsonIds |-> "", Sources |-> "", JSource |-> "", Joyo |-> IF joyo THEN "Y" ELSE "", Jinmei |-> IF jinmei THEN "Y" ELSE "",
   LinkCodes |-> IF link = "" THEN "" ELSE "4E05", LinkNames |-> link, LinkType |-> IF link = "" THEN "" ELSE "Jinmei", Meaning |-> "m", On |-> "A", Kun |-> "", Japanese |-> "",
   cp |-> [name |-> <<code>>, code |-> <<48, 48, 48, 48>>, links |-> IF link = "" THEN <<>> ELSE <<<<code>>>>, codes |-> IF link = "" THEN <<>> ELSE <<<<48, 48, 48, 48>>>>]]
Num0(n, old) == [Number |-> "1", Name |-> n, Radical |-> "r", OldNames |-> T!Join(old, ","), Year |-> "", Strokes |-> "2", Grade |-> "1", Meaning |-> "m", Reading |-> "a", Reason |-> "Names"]
Names(p) == (IF p \in x THEN <<"X">> ELSE <<>>) \o (IF p \in y THEN <<"Y">> ELSE <<>>)
JinFlag(w) == w \cap {"lnk", "jin", "jold"} # {} /\ "jou" \notin w
Rows(p) == [i \in 1..Len(Names(p)) |-> Num0(Names(p)[i], <<>>)]
Fq == <<"B", "M">> \o Names("frq")
URow(n, code, w, link) == [Row(n, code, "jou" \in w, JinFlag(w), IF JinFlag(w) THEN link ELSE "") EXCEPT !.Code = CASE code = 19968 -> "4E00" [] code = 19969 -> "4E01" [] code = 19970 -> "4E02" [] code = 19971 -> "4E03",
                            !.LinkCodes = IF JinFlag(w) THEN (CASE code = 19970 -> "4E02" [] code = 19971 -> "4E03") ELSE ""]
DD == [cps |-> [i \in 1..6 |-> [n |-> <<"B", "M", "X", "Y", "P", "Q">>[i], base |-> <<"B", "M", "X", "Y", "P", "Q">>[i], cp |-> <<19967 + i>>]],
       radicals |-> <<"r">>, freqr |-> <<>>, ucd |-> <<URow("B", 19968, {"jou"}, ""), [URow("M", 19969, {}, "") EXCEPT !.Jinmei = "Y"], URow("X", 19970, x, "P"), URow("Y", 19971, y, "Q")>>,
       jouyou |-> <<Num0("B", Names("old"))>> \o Rows("jou"), linked |-> [i \in 1..Len(Names("lnk")) |-> [jouyou |-> "B", linked |-> Names("lnk")[i], bad |-> FALSE, line |-> ""]],
       jinmei |-> <<Num0("M", Names("jold"))>> \o Rows("jin"), extra |-> Rows("ext"), levels |-> <<<<"B">>, <<"M">>, <<>>, <<>>, <<>>>>,
       freq |-> [i \in 1..Len(Fq) |-> [n |-> Fq[i], pos |-> i]], kyus |-> <<<<"B">>, <<"M">>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, Names("kyu")>>]
First(w) == IF "jou" \in w THEN "Jouyou" ELSE IF "lnk" \in w THEN "LinkedJinmei" ELSE IF "old" \in w THEN "LinkedOld" ELSE IF "jold" \in w THEN "LinkedJinmei"
            ELSE IF "jin" \in w THEN "Jinmei" ELSE IF "ext" \in w THEN "Extra" ELSE IF "frq" \in w THEN "Frequency" ELSE IF "kyu" \in w THEN "Kentei" ELSE "Ucd"
\* the frequency list holds no extra kanji
Legal(w) == ~(First(w) = "Extra" /\ "frq" \in w)
Init == x \in {w \in SUBSET Places : Legal(w)} /\ y \in {w \in SUBSET Places : Legal(w) /\ Cardinality(w) \in YSets}
Next == UNCHANGED <<x, y>>
Tries(w) == Cardinality(w \cap {"jou", "lnk", "jold", "jin", "ext"})
Extras(w) == IF First(w) = "LinkedOld" THEN Tries(w) ELSE IF Tries(w) > 0 THEN Tries(w) - 1 ELSE 0
Count(q, n) == Cardinality({i \in 1..Len(q) : q[i] = n})
NameOk(z, n, w) ==
  LET k == z.recs[n]
      own == First(w)
      inFile(t) == (t = "Jouyou" /\ "jou" \in w) \/ (t = "Jinmei" /\ "jin" \in w) \/ (t = "Extra" /\ "ext" \in w)
  IN /\ k.type = own
     /\ \A i \in 1..8 : Count(z.types[TypeList[i]], n) = (IF TypeList[i] = own \/ inFile(TypeList[i]) THEN 1 ELSE 0)
     /\ Count(z.order, n) = 1
     /\ Count(z.grades["G1"], n) = (IF own = "Jouyou" THEN 1 ELSE 0)
     /\ k.freq = Freq(DD, n) /\ (k.freq # 0 <=> "frq" \in w)
     /\ k.kyu = (IF "kyu" \in w THEN "K1" ELSE "None")
     /\ Count(NamesOf(z.freqs), n) = (IF "frq" \in w THEN 1 ELSE 0)
     /\ Count(z.kyus["K1"], n) = (IF "kyu" \in w THEN 1 ELSE 0)
     /\ k.link = (IF own = "LinkedJinmei" THEN (IF "lnk" \in w THEN "B" ELSE "M") ELSE IF own = "LinkedOld" THEN "B" ELSE "")
     /\ FindByName(z, n) = n
     /\ ByFreq(z, Freq(DD, n)) = (IF "frq" \in w THEN n ELSE "")
Inv == LET z == Load(DD) IN
  /\ z.fail = {}
  /\ NameOk(z, "X", x) /\ NameOk(z, "Y", y)
  /\ z.recs["B"].type = "Jouyou" /\ z.recs["M"].type = "Jinmei"
  /\ DOMAIN z.recs = {"B", "M", "X", "Y"} /\ FindByName(z, "P") = ""
  /\ Len(z.errs) = Extras(x) + Extras(y)
  \* the orders are strict and total
  /\ \A how \in {"strokes", "qual"} : \A a \in DOMAIN z.recs : \A b \in DOMAIN z.recs :
        LET L(p, q) == IF how = "strokes" THEN ByStrokes(z, p, q) ELSE ByQName(z, p, q) IN
        /\ ~(L(a, b) /\ L(b, a)) /\ (a # b => L(a, b) \/ L(b, a))
        /\ \A d \in DOMAIN z.recs : L(a, b) /\ L(b, d) => L(a, d)
Emit == PrintT("HIST " \o ToJson([x |-> x, y |-> y]))
Spec == Init /\ [][Next]_<<x, y>>
=============================================================================
