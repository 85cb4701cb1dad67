------------------------------ MODULE Radicals -------------------------------
(* The radicals file: row n must carry number n; the first of the space        *)
(* separated names is the radical's name, the others are alternate forms.      *)
(* State: [rad |-> radicals loaded so far, bad |-> a load failed]              *)
EXTENDS ColumnFile
RCols == <<"Number", "Name", "LongName", "Reading">>
RFresh == [rad |-> <<>>, bad |-> FALSE]
RECURSIVE LoadRows(_, _)
LoadRows(z, acc) ==
  LET n == Next1(z) IN
  IF Fail(n.x) THEN [x |-> n.x, rad |-> acc]
  ELSE IF ~n.x.v[1] THEN [x |-> Val(Len(acc)), rad |-> acc]
  ELSE LET y == n.st
           num == Get(y, [kind |-> "u8", c |-> "Number"])
           cell(c) == Get(y, [kind |-> "get", c |-> c]).v
           names == Pieces(cell("Name"), " ")
       IN IF Fail(num) THEN [x |-> num, rad |-> acc]
          ELSE IF num.v # ToString(y.row) THEN [x |-> Err("radicals must be ordered by 'number'", y), rad |-> acc]
          ELSE LoadRows(y, Append(acc, [number |-> y.row, name |-> IF names = <<>> THEN "" ELSE names[1],
                                        alt |-> IF names = <<>> THEN <<>> ELSE Tail(names), long |-> cell("LongName"), reading |-> cell("Reading")]))
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
Show(r) == [number |-> r.number, name |-> r.name, alt |-> r.alt, long |-> r.long, reading |-> r.reading, out |-> "[" \o Pad3(r.number) \o "] " \o r.name]
DErr(m) == [E |-> "DomainError", m |-> m]
RApply(z, e) ==
  CASE e.op = "new" -> [x |-> Val(0), st |-> RFresh]
    [] e.op = "load" -> LET f == [kind |-> "file", name |-> e.name, text |-> e.text, cols |-> RCols, delim |-> "\t"]
                            o == Open(Closed, f)
                        IN IF Fail(o) THEN [x |-> o, st |-> [z EXCEPT !.bad = TRUE]]
                           ELSE LET l == LoadRows(Opened(Closed, f), z.rad) IN [x |-> IF Fail(l.x) THEN l.x ELSE Val(0), st |-> [rad |-> l.rad, bad |-> Fail(l.x)]]
    [] e.op = "num" -> [x |-> IF z.rad = <<>> THEN DErr("must call 'load' before calling 'find'")
                              ELSE IF e.n \notin 1..Len(z.rad) THEN DErr("'" \o ToString(e.n) \o "' is not a valid radical number") ELSE Val(Show(z.rad[e.n])), st |-> z]
    [] e.op = "name" -> [x |-> IF z.rad = <<>> THEN DErr("must call 'load' before calling 'find'")
                               ELSE IF ~\E i \in 1..Len(z.rad) : z.rad[i].name = e.n THEN DErr("name not found: " \o e.n)
                               ELSE Val(Show(z.rad[CHOOSE i \in 1..Len(z.rad) : z.rad[i].name = e.n])), st |-> z]
    [] e.op = "cmp" -> [x |-> Val(<<e.a < e.b, e.a = e.b>>), st |-> z]
=============================================================================
