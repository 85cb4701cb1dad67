------------------------------- MODULE EnumSeq -------------------------------
(* Enumeration lists and maps as fixed sequences, and iterators over them as   *)
(* bounded positions. State of a session:                                      *)
(*   kind  "list" or "map" (two maps a and b of one type)                      *)
(*   n     number of positions; none = TRUE if the last one is None (lists)    *)
(*   names names of the enumerators (lists), without None                      *)
(*   it    iterator registers, each [on |-> "-" (default) | "l" | "a" | "b", p]*)
(*   val   contents of the two maps                                            *)
EXTENDS Integers, Sequences, TLC

Val(x) == [v |-> x]
DomErr(m) == [E |-> "DomainError", m |-> m]
RngErr(m) == [E |-> "RangeError", m |-> m]
Past0 == RngErr("can't decrement past zero")
PastEnd == RngErr("can't increment past end")
NoIndex(t) == RngErr("index '" \o t \o "' is out of range")
NoEnum(t) == RngErr("enum '" \o t \o "' is out of range")
NotComparable == DomErr("not comparable")
NotInitialized == DomErr("not initialized")

Regs == 1..3
New(kind, n, none, names) ==
  [kind |-> kind, n |-> n, none |-> none, names |-> names, it |-> [r \in Regs |-> [on |-> "-", p |-> 0]],
   val |-> [m \in {"a", "b"} |-> [i \in 0..(n - 1) |-> 0]]]
Positions(z) == [r \in Regs |-> z.it[r].p]

\* move iterator `it` by d
Moved(z, it, d) == IF d < -it.p THEN Past0 ELSE IF d > z.n - it.p THEN PastEnd ELSE Val(it.p + d)
Deref(z, it) == IF z.kind = "map" /\ it.on = "-" THEN NotInitialized
                ELSE IF it.p >= z.n THEN NoIndex(ToString(it.p))
                ELSE Val(IF z.kind = "map" THEN z.val[it.on][it.p] ELSE it.p)
Comparable(z, x, y) == z.kind = "list" \/ x.on = y.on
Fail(r) == "E" \in DOMAIN r

\* text of enumerator i of a list (0 based)
Name(z, i) == IF z.none /\ i = z.n - 1 THEN Val("None") ELSE IF i >= z.n THEN NoEnum(ToString(i)) ELSE Val(z.names[i + 1])
Lookup(z, t) == IF \E i \in 1..Len(z.names) : z.names[i] = t THEN Val((CHOOSE i \in 1..Len(z.names) : z.names[i] = t) - 1)
                ELSE DomErr("name '" \o t \o "' not found")
NoneIx(z) == Val(z.n - 1)

\* one operation: reply and successor state. Every reply to an iterator operation carries
\* the positions of all iterators afterwards.
Apply(z, e) ==
  LET it == IF "g" \in DOMAIN e THEN z.it[e.g] ELSE [on |-> "-", p |-> 0]
      it2 == IF "q" \in DOMAIN e THEN z.it[e.q] ELSE [on |-> "-", p |-> 0]
      Put(x) == [z EXCEPT !.it[e.g] = x]
      \* result of moving register r by d; keep = FALSE: the register itself stays
      Move(d, keep, old) ==
         LET m == Moved(z, it, d) IN
         IF Fail(m) THEN [x |-> m, st |-> z]
         ELSE [x |-> Val(IF old THEN it.p ELSE m.v), st |-> IF keep THEN Put([it EXCEPT !.p = m.v]) ELSE z]
      Same(x) == [x |-> x, st |-> z]
  IN CASE e.op = "begin" -> [x |-> Val(0), st |-> Put([on |-> e.on, p |-> 0])]
       [] e.op = "end"   -> [x |-> Val(0), st |-> Put([on |-> e.on, p |-> z.n])]
       [] e.op = "def"   -> [x |-> Val(0), st |-> Put([on |-> "-", p |-> 0])]
       [] e.op = "copy"  -> [x |-> Val(0), st |-> Put(it2)]
       [] e.op = "inc"   -> Move(1, TRUE, FALSE)
       [] e.op = "dec"   -> Move(-1, TRUE, FALSE)
       [] e.op = "incp"  -> Move(1, TRUE, TRUE)
       [] e.op = "decp"  -> Move(-1, TRUE, TRUE)
       [] e.op = "add"   -> Move(e.i, TRUE, FALSE)
       [] e.op = "sub"   -> Move(-e.i, TRUE, FALSE)
       [] e.op = "plus"  -> Move(e.i, FALSE, FALSE)
       [] e.op = "minus" -> Move(-e.i, FALSE, FALSE)
       [] e.op = "at"    -> LET m == Moved(z, it, e.i) IN Same(IF Fail(m) THEN m ELSE Deref(z, [it EXCEPT !.p = m.v]))
       [] e.op = "deref" -> Same(Deref(z, it))
       [] e.op = "diff"  -> Same(IF Comparable(z, it, it2) THEN Val(it.p - it2.p) ELSE NotComparable)
       [] e.op = "cmp"   -> Same(IF ~Comparable(z, it, it2) THEN NotComparable
                                 ELSE Val(<<it.p = it2.p, it.p # it2.p, it.p < it2.p, it.p <= it2.p, it.p > it2.p, it.p >= it2.p>>))
       \* whole container
       [] e.op = "size"  -> Same(Val(z.n))
       [] e.op = "all"   -> Same(Val([i \in 1..z.n |-> IF z.kind = "map" THEN z.val[e.on][i - 1] ELSE i - 1]))
       [] e.op = "index" -> Same(IF e.i >= 0 /\ e.i < z.n THEN Val(e.i) ELSE NoIndex(e.is))
       [] e.op = "name"  -> Same(Name(z, e.i))
       [] e.op = "from"  -> Same(LET t == e.t
                                     l == Lookup(z, t)
                                 IN IF e.how = "plain" THEN l
                                    ELSE IF t = "" /\ e.how \in {"empty", "both"} THEN NoneIx(z)
                                    ELSE IF t = "None" /\ e.how \in {"none", "both"} THEN NoneIx(z) ELSE l)
       [] e.op = "has"   -> Same(Val(<<e.i # z.n - 1, e.i = z.n - 1, e.i = z.n - 2>>))
       \* maps
       [] e.op = "set"   -> IF e.i < z.n THEN [x |-> Val(0), st |-> [z EXCEPT !.val[e.on][e.i] = e.w]]
                            ELSE Same(NoIndex("enum value " \o ToString(e.i)))
       [] e.op = "get"   -> Same(IF e.i < z.n THEN Val(z.val[e.on][e.i])
                                 ELSE IF e.i = z.n /\ e.how = "const" THEN Val(0)
                                 ELSE NoIndex("enum value " \o ToString(e.i)))

\* bitmasks over 8 bits
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN {} ELSE (IF x % 2 = 1 THEN {0} ELSE {}) \cup {i + 1 : i \in Bits(x \div 2)}
RECURSIVE Num(_)
Num(s) == IF s = {} THEN 0 ELSE LET i == CHOOSE j \in s : TRUE IN 2 ^ i + Num(s \ {i})
MaskOps(x, y) == LET a == Bits(x)
                     b == Bits(y)
                 IN [and |-> Num(a \cap b), or |-> Num(a \cup b), xor |-> Num((a \cup b) \ (a \cap b)), not |-> Num((0..7) \ a),
                     has |-> x # 0, nothas |-> x = 0]
=============================================================================
