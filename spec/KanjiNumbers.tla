---------------------------- MODULE KanjiNumbers -----------------------------
(* Dictionary numbers, stroke counts and pinyin: accepted texts and values,    *)
(* canonical text, order.                                                      *)
EXTENDS Text
Val(x) == [v |-> x]
Fail(x) == "E" \in DOMAIN x
Dom(m) == [E |-> "DomainError", m |-> m]
Rng(m) == [E |-> "RangeError", m |-> m]

\* ---- Morohashi numbers: digits, with suffix P or ' (prime), PP or '' (double prime) or prefix H (supplemental)
MaxId == 65535
MType(t) == IF EndsWith(t, "PP") \/ EndsWith(t, "''") THEN "DoublePrime"
            ELSE IF EndsWith(t, "P") \/ EndsWith(t, "'") THEN "Prime"
            ELSE IF StartsWith(t, "H") THEN "Supplemental" ELSE "Plain"
MBody(t) == CASE MType(t) = "DoublePrime" -> SubSeq(t, 1, Len(t) - 2)
              [] MType(t) = "Prime" -> SubSeq(t, 1, Len(t) - 1)
              [] MType(t) = "Supplemental" -> From(t, 2)
              [] OTHER -> t
\* the value of digits, stopping as soon as it exceeds the maximum or at something else than a digit
RECURSIVE Scan(_, _, _)
Scan(b, i, n) == IF i > Len(b) THEN [n |-> n, why |-> ""]
                 ELSE IF ~IsDigit(Ch(b, i)) THEN [n |-> n, why |-> "is non-numeric"]
                 ELSE LET y == 10 * n + Ord(Ch(b, i)) - 48 IN IF y > MaxId THEN [n |-> n, why |-> "exceeds max"] ELSE Scan(b, i + 1, y)
MParse(t) ==
  LET b == MBody(t)
      q == Scan(b, 1, 0)
      why == IF t # "" /\ b = "" THEN "is invalid" ELSE IF q.why # "" THEN q.why
             ELSE IF MType(t) # "Plain" /\ q.n = 0 THEN "can't be zero" ELSE ""
  IN IF why # "" THEN Dom("Morohashi ID '" \o t \o "' " \o why) ELSE Val([id |-> q.n, type |-> MType(t)])
MText(m) == LET d == IF m.id = 0 THEN "" ELSE ToString(m.id) IN
  CASE m.type = "Plain" -> d [] m.type = "Prime" -> d \o "P" [] m.type = "DoublePrime" -> d \o "PP" [] m.type = "Supplemental" -> "H" \o d
TypeRank(t) == CASE t = "Plain" -> 0 [] t = "Prime" -> 1 [] t = "DoublePrime" -> 2 [] t = "Supplemental" -> 3
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
MCmp(a, b) == IF a.id # b.id THEN Cmp(a.id, b.id) ELSE Cmp(TypeRank(a.type), TypeRank(b.type))
MAll(x) == IF Fail(x) THEN x ELSE Val([id |-> x.v.id, type |-> TypeRank(x.v.type), text |-> MText(x.v), some |-> x.v.id # 0])

\* ---- strokes
MaxStrokes == 64
MaxVariant == 33
OutOf(w, n) == Rng(w \o "strokes '" \o ToString(n) \o "' out of range")
Strokes1(v) == IF v \notin 1..MaxStrokes THEN OutOf("", v) ELSE Val([v |-> v, var |-> 0])
Strokes2(v, w) == IF v \notin 2..MaxStrokes THEN OutOf("", v) ELSE IF w \notin 3..MaxVariant THEN OutOf("variant ", w)
                  ELSE IF v = w THEN Dom("strokes and variant strokes are the same '" \o ToString(v) \o "'") ELSE Val([v |-> v, var |-> w])
SText(s, full) == ToString(s.v) \o (IF full /\ s.var # 0 THEN "/" \o ToString(s.var) ELSE "")
SCmp(a, b) == IF a.v # b.v THEN Cmp(a.v, b.v) ELSE Cmp(a.var, b.var)
Strokes(e) == IF e.var = -1 THEN Strokes1(e.v) ELSE Strokes2(e.v, e.var)
SAll(x) == IF Fail(x) THEN x ELSE Val([v |-> x.v.v, var |-> x.v.var, has |-> x.v.var # 0, text |-> SText(x.v, FALSE), full |-> SText(x.v, TRUE), out |-> SText(x.v, FALSE)])

\* the six comparisons that follow from a three-way result
Rel(c) == [lt |-> c < 0, le |-> c <= 0, eq |-> c = 0, ne |-> c # 0, ge |-> c >= 0, gt |-> c > 0]

Eval(e) ==
  CASE e.op = "mo" -> MAll(MParse(e.t))
    [] e.op = "mocmp" -> LET a == MParse(e.a)
                             b == MParse(e.b) IN IF Fail(a) THEN a ELSE IF Fail(b) THEN b ELSE Val(Rel(MCmp(a.v, b.v)))
    [] e.op = "st" -> SAll(Strokes(e))
    [] e.op = "stcmp" -> Val(Rel(SCmp(Strokes(e.a).v, Strokes(e.b).v)))
    [] e.op = "py" -> Val([a |-> e.a, b |-> e.b, eq |-> e.a = e.b, some |-> e.a # ""])
=============================================================================
