----------------------------- MODULE MCListFile ------------------------------
(* Every pair of small files over two names (A, B), a character that is no     *)
(* name (x), space and newline, loaded one after the other as any two types:   *)
(* a load succeeds exactly when every token is a name, new to the file and to  *)
(* its family; then the list is the tokens in order and positions count them.  *)
EXTENDS ListFile, Json
CONSTANTS L1, L2
VARIABLES f1, f2, t1, t2, one
vars == <<f1, f2, t1, t2, one>>
Alpha == {"A", "B", "x", " ", "\n"}
MCMB(c) == c \in {"A", "B"}
Seqs(n) == UNION {[1..i -> Alpha] : i \in 0..n}
Init == f1 \in Seqs(L1) /\ f2 \in Seqs(L2) /\ t1 \in {"plain", "N5", "K10"} /\ t2 \in {"plain", "N4", "K10"} /\ one \in BOOLEAN
Next == UNCHANGED vars
Ev(f, t, n) == [op |-> "load", kind |-> "file", file |-> n, name |-> n, one |-> one /\ t = "plain", type |-> t, chars |-> f, ask |-> <<"A", "B", "x">>]
Toks(f) == LET t == Tokens([chars |-> f]) IN t
Words(f) == [i \in 1..Len(Toks(f)) |-> Flat(Toks(f)[i].tok)]
NonSpace(q) == SelectSeq(q, LAMBDA c : c \notin {" ", "\n"})
OkFile(f, t, used, o) ==
  LET w == Words(f) IN
  /\ \A i \in 1..Len(w) : w[i] \in {"A", "B"} /\ w[i] \notin used
  /\ \A i, j \in 1..Len(w) : i # j => w[i] # w[j]
  /\ o => \A i \in 1..Len(f) : f[i] # " "
Inv ==
  LET a1 == Apply(Fresh, Ev(f1, t1, "f1"))
      z == IF Fail(a1.x) THEN Fresh ELSE a1.st
      a2 == Apply(z, Ev(f2, t2, "f2"))
      sameFam == Family(Ev(f1, t1, "f1")) = Family(Ev(f2, t2, "f2"))
      used == IF sameFam /\ ~Fail(a1.x) THEN SeqSet(NonSpace(f1)) ELSE {}
  IN /\ ~Fail(a1.x) <=> OkFile(f1, t1, {}, one /\ t1 = "plain")
     /\ ~Fail(a2.x) <=> OkFile(f2, t2, used, one /\ t2 = "plain")
     /\ ~Fail(a1.x) => /\ a1.x.v.list = NonSpace(f1)
                       /\ a1.x.v.ask[3] = 0
                       /\ \A i \in 1..2 : LET n == a1.x.v.ask[i] IN IF n = 0 THEN <<"A", "B">>[i] \notin SeqSet(f1) ELSE a1.x.v.list[n] = <<"A", "B">>[i]
     \* families stay disjoint inside and do not touch each other
     /\ (~Fail(a1.x) /\ ~Fail(a2.x) /\ sameFam) => SeqSet(a1.x.v.list) \cap SeqSet(a2.x.v.list) = {}
     /\ ~Fail(a2.x) => a2.st.plain \cup a2.st.level \cup a2.st.kyu = SeqSet(a2.x.v.list) \cup (IF Fail(a1.x) THEN {} ELSE SeqSet(a1.x.v.list))
Emit == PrintT("HIST " \o ToJson([f1 |-> f1, f2 |-> f2, t1 |-> t1, t2 |-> t2, one |-> one]))
Spec == Init /\ [][Next]_vars
=============================================================================
