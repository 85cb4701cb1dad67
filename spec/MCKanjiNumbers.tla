--------------------------- MODULE MCKanjiNumbers ----------------------------
(* Morohashi texts of up to N characters over a small alphabet and the whole   *)
(* range of stroke counts: canonical texts parse to themselves, order is total *)
(* and lists numbers by index, then type.                                      *)
EXTENDS KanjiNumbers, Json
CONSTANTS N, N2
VARIABLES t, u
Alpha == {"0", "1", "6", "P", "'", "H", "x"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE Texts(n - 1) \cup {c \o x : c \in Alpha, x \in Texts(n - 1)}
Init == (\/ t \in Texts(N) /\ u = ""
         \/ t \in Texts(N2) /\ u \in Texts(N2))
Next == UNCHANGED <<t, u>>
Good(x) == \/ x = ""
           \/ \E i, j \in 1..Len(x) : LET b == SubSeq(x, i, j) IN
                /\ b # "" /\ AllDigits(b)
                /\ \/ x = b
                   \/ Canon(b) # "0" /\ x \in {b \o "P", b \o "'", b \o "PP", b \o "''", "H" \o b}
ASSUME \A v \in 0..255, w \in 0..255 :
  LET s == Strokes2(v, w)
      s1 == Strokes1(v)
  IN /\ ~Fail(s) <=> (v \in 2..64 /\ w \in 3..33 /\ v # w)
     /\ ~Fail(s1) <=> v \in 1..64
     /\ (~Fail(s) /\ ~Fail(s1)) => SCmp(s1.v, s.v) = -1
ASSUME
  /\ \A i \in {65534, 65535} : ~Fail(MParse(ToString(i))) /\ MParse("H0" \o ToString(i)).v.id = i
  /\ Fail(MParse("65536")) /\ Fail(MParse("655350"))
Inv ==
  LET a == MParse(t)
      b == MParse(u)
  IN /\ (Len(t) <= 5) => (~Fail(a) <=> Good(t))
     /\ ~Fail(a) => /\ MParse(MText(a.v)).v = a.v
                    /\ MText(MParse(MText(a.v)).v) = MText(a.v)
     /\ (~Fail(a) /\ ~Fail(b)) => /\ MCmp(a.v, b.v) = 0 - MCmp(b.v, a.v)
                                  /\ (MCmp(a.v, b.v) = 0 <=> MText(a.v) = MText(b.v))
Emit == u = "" => PrintT("HIST " \o ToJson(t))
Spec == Init /\ [][Next]_<<t, u>>
=============================================================================
