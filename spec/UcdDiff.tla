-------------------------------- MODULE UcdDiff --------------------------------
(* scripts/ucdDiff.sh: show the fields of a code point, or how two code points   *)
(* (or one code point in two versions of the database) differ.                   *)
(*  arg   [s, code, many]: the text; code is the code point it names (hex text,  *)
(*        "" if it is none); many: more than one character outside of ASCII      *)
(*  disk  [path -> [code -> <<[n, v], ...>>]]: the files and the fields of each   *)
(*        record in them; old, new: the default files                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Fail(m) == [fail |-> m]
NotFile(s) == "'" \o s \o "' ia not a valid file"
NoFile(s) == "'" \o s \o "' must be followed by a UCD file"
RECURSIVE OptD(_, _, _, _), OptF(_, _, _, _)
\* options of -d: -o and -n, any number of times (the last counts)
OptD(w, q, old, new) ==
  IF q = <<>> \/ q[1].s \notin {"-o", "-n"} THEN
    IF old = new THEN Fail("'old file' is the same as 'new file'")
    ELSE IF Len(q) > 1 THEN Fail("only one code point should be specified with '-d'")
    ELSE [fail |-> "", old |-> old, new |-> new, only |-> FALSE, q |-> q]
  ELSE IF Len(q) < 2 THEN Fail(NoFile(q[1].s))
  ELSE IF q[2].s \notin DOMAIN w.disk THEN Fail(NotFile(q[2].s))
  ELSE IF q[1].s = "-o" THEN OptD(w, SubSeq(q, 3, Len(q)), q[2].s, new) ELSE OptD(w, SubSeq(q, 3, Len(q)), old, q[2].s)
OptF(w, q, file, only) ==
  IF q # <<>> /\ q[1].s = "-p" THEN OptF(w, Tail(q), file, TRUE)
  ELSE IF q # <<>> /\ q[1].s = "-f" THEN
    IF Len(q) < 2 THEN Fail(NoFile("-f"))
    ELSE IF q[2].s \notin DOMAIN w.disk THEN Fail(NotFile(q[2].s))
    ELSE OptF(w, SubSeq(q, 3, Len(q)), q[2].s, only)
  ELSE IF only /\ Len(q) > 1 THEN Fail("only one code point should be specified with '-p'")
  ELSE IF Len(q) > 2 THEN Fail("too many arguments")
  ELSE [fail |-> "", old |-> file, new |-> file, only |-> only, q |-> q]
Options(w, q) ==
  LET o == IF q # <<>> /\ q[1].s = "-d" THEN OptD(w, Tail(q), w.old, w.new) ELSE OptF(w, q, w.new, FALSE)
  IN IF o.fail = "" /\ o.q = <<>> THEN Fail("must specify at least one code point") ELSE o
BadCode(a) == IF a.many THEN "code point '" \o a.s \o "' should be a single UTF-8 value" ELSE "invalid code point '" \o a.s \o "'"
Has(w, file, code) == file \in DOMAIN w.disk /\ code \in DOMAIN w.disk[file]
Missing(code, file) == "'" \o code \o "' not found in: " \o file
\* fields in one list only, in its order (the fields of a file have a fixed order)
Without(x, y) == SelectSeq(x, LAMBDA p : \A i \in 1..Len(y) : y[i] # p)
Cjk(q) == SelectSeq(q, LAMBDA p : p.k /\ p.v # "")
ValueOf(q, n) == LET S == {i \in 1..Len(q) : q[i].n = n} IN IF S = {} THEN [n |-> "", v |-> "", k |-> FALSE] ELSE q[CHOOSE i \in S : TRUE]
General == <<"age", "blk", "sc", "Ideo", "Radical">>
UDiff(w, args) ==
  LET o == Options(w, args) IN
  IF o.fail # "" THEN o
  ELSE LET a == o.q[1] x == w.disk[o.old][a.code] IN
    IF a.code = "" THEN Fail(BadCode(a))
    ELSE IF ~Has(w, o.old, a.code) THEN Fail(Missing(a.code, o.old))
    ELSE IF o.old = o.new /\ Len(o.q) = 1 THEN
      IF o.only THEN [fail |-> "", show |-> "cjk", code |-> a.code, head |-> [i \in 1..5 |-> ValueOf(x, General[i])], fields |-> Cjk(x)]
      ELSE [fail |-> "", show |-> "all", code |-> a.code, file |-> o.new, fields |-> x]
    ELSE LET b == IF o.old = o.new THEN o.q[2] ELSE a IN
      IF b.code = "" THEN Fail(BadCode(b))
      ELSE IF o.old = o.new /\ b.code = a.code THEN Fail("code points are the same")
      ELSE IF ~Has(w, o.new, b.code) THEN Fail(Missing(b.code, o.new))
      ELSE LET y == w.disk[o.new][b.code]
               side(c, f, p) == IF p = <<>> THEN <<>> ELSE <<[code |-> c, file |-> f, fields |-> p]>>
               l == side(a.code, o.old, Without(x, y)) \o side(b.code, o.new, Without(y, x))
           IN [fail |-> "", show |-> IF l = <<>> THEN "same" ELSE "diff", sides |-> l]
SInit(i) == i
UDApply(w, e) == LET exp == UDiff(w, e.args) IN [ok |-> e.r = [v |-> exp], exp |-> exp, st |-> w]
===============================================================================
