------------------------------- MODULE MCUcd ---------------------------------
(* Two rows over a choice of flags, links and stroke values: which pairs load, *)
(* and what a name finds afterwards, stated without the loading procedure.     *)
EXTENDS Ucd
VARIABLES a, b
Names == <<[n |-> "A", cp |-> <<19968>>], [n |-> "B", cp |-> <<19969>>], [n |-> "C", cp |-> <<63744>>]>>
Hex == <<"4E00", "4E01", "F900">>
CONSTANTS Strk
Row(w) == [Code |-> Hex[w.n], Name |-> Names[w.n].n, Block |-> "", Version |-> "", Radical |-> w.rad, Strokes |-> w.st, VStrokes |-> w.vs, Pinyin |-> "",
   MorohashiId |-> "", NelsonIds |-> "", Sources |-> "", JSource |-> "", Joyo |-> IF w.kind = "joyo" THEN "Y" ELSE "", Jinmei |-> IF w.kind = "jinmei" THEN "Y" ELSE "",
   LinkCodes |-> IF w.link = 0 THEN "" ELSE Hex[w.link], LinkNames |-> IF w.link = 0 THEN "" ELSE Names[w.link].n, LinkType |-> w.lt,
   Meaning |-> IF w.kind = "joyo" THEN "m" ELSE "", On |-> w.on, Kun |-> "", Japanese |-> "",
   cp |-> [name |-> Names[w.n].cp, code |-> <<48, 48, 48, 48>>, links |-> IF w.link = 0 THEN <<>> ELSE <<Names[w.link].cp>>, codes |-> IF w.link = 0 THEN <<>> ELSE <<<<48, 48, 48, 48>>>>]]
W == [n : 1..3, kind : {"joyo", "jinmei", "none"}, link : 0..2, lt : {"", "Jinmei*", "Traditional"}, st : Strk, vs : {"", "3"}, rad : {"1", "215"}, on : {"", "A"}]
WB == {w \in W : w.st = "5" /\ w.vs = "" /\ w.rad = "1" /\ w.on = "A"}
Init == a \in W /\ b \in WB
Next == UNCHANGED <<a, b>>
OkAlone(w) == /\ w.on # "" /\ w.rad = "1" /\ w.st # "65" /\ (w.vs # "" => w.st \notin {"1", "3"})
              /\ (w.link # 0) <=> (w.lt # "")
              /\ ~(w.kind = "joyo" /\ w.link # 0)
OkBoth == OkAlone(a) /\ OkAlone(b) /\ a.n # b.n /\ ~(a.kind = "jinmei" /\ b.kind = "jinmei" /\ a.link # 0 /\ a.link = b.link)
Inv == LET l == LoadRows(UFresh, <<Row(a), Row(b)>>, "F", 1)
           Claims(w, i) == w.kind = "jinmei" /\ w.link = i
       IN /\ (l.errs = {}) <=> OkBoth
          /\ l.errs = {} =>
              \A i \in 1..3 : LET n == Names[i].n IN
                /\ FindName(l.st, n, FALSE) = IF i \in {a.n, b.n} THEN n ELSE ""
                /\ FindName(l.st, n, TRUE) = IF Claims(a, i) THEN Names[a.n].n ELSE IF Claims(b, i) THEN Names[b.n].n ELSE ""
          /\ l.errs = {} => /\ l.st.recs[Names[a.n].n].nontrad = (a.lt = "Jinmei*")
                            /\ l.st.recs[Names[a.n].n].linkedReadings = (a.lt = "Jinmei*")
                            /\ Len(ByCode(l.st.recs, DOMAIN l.st.recs)) = 2
Spec == Init /\ [][Next]_<<a, b>>
=============================================================================
