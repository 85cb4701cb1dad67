----------------------------- MODULE ColumnFile ------------------------------
(* Delimited text files with a header row. Text = plain strings.               *)
(* State of a session:                                                         *)
(*   cols   names for which a column exists so far (in this session)           *)
(*   open   is a file open; then                                               *)
(*   name, width, known (columns existing when it was opened),                 *)
(*   pos    column -> position in the rows, rest (lines not yet read), delim,  *)
(*   row    number of rows read, vals (cells of the current row), bad (the     *)
(*          last row was rejected: cells are unspecified)                      *)
EXTENDS Text

Val(x) == [v |-> x]
Closed == [cols |-> {}, open |-> FALSE]
ErrMsg(what, z) == what \o " - file: " \o z.name \o (IF z.row > 0 THEN ", row: " \o ToString(z.row) ELSE "")
Err(what, z) == [E |-> "DomainError", m |-> ErrMsg(what, z)]
ErrVal(what, z, c, t) == [E |-> "DomainError", m |-> ErrMsg(what, z) \o ", column: '" \o c \o "', value: '" \o t \o "'"]
Fail(x) == "E" \in DOMAIN x

\* cells of a line: one trailing delimiter after the last of n cells is ignored
Cells(line, d, n) == LET q == Split(line, d) IN
  IF Len(q) = n + 1 /\ q[n + 1] = "" THEN SubSeq(q, 1, n) ELSE q
HeaderCells(line, d) == Pieces(line, d)

SeqSet(q) == {q[i] : i \in 1..Len(q)}
\* first problem of the header cells h for wanted columns w (a set)
RECURSIVE BadHeader(_, _, _)
BadHeader(h, i, w) ==
  IF i > Len(h) THEN ""
  ELSE IF \E j \in 1..(i - 1) : h[j] = h[i] THEN "duplicate header '" \o h[i] \o "'"
  ELSE IF h[i] \notin w THEN "unrecognized header '" \o h[i] \o "'"
  ELSE BadHeader(h, i + 1, w)
\* first repeated name of a list
RECURSIVE FirstDup(_, _)
FirstDup(q, i) == IF i > Len(q) THEN 0 ELSE IF \E j \in 1..(i - 1) : q[j] = q[i] THEN i ELSE FirstDup(q, i + 1)

\* kind: "file" | "dir" | "missing"; text: content; cols: the wanted columns
Open(z, e) ==
  LET f == [name |-> e.name, row |-> 0]
      ls == Lines(e.text)
      h == HeaderCells(ls[1], e.delim)
      w == SeqSet(e.cols)
      dup == FirstDup(e.cols, 1)
      bad == BadHeader(h, 1, w)
      miss == w \ SeqSet(h)
      q == Sorted(miss)
  IN IF e.cols = <<>> THEN Err("must specify at least one column", f)
     ELSE IF e.kind = "missing" THEN Err("doesn't exist", f)
     ELSE IF e.kind = "dir" THEN Err("not regular file", f)
     ELSE IF e.text = "" THEN Err("missing header row", f)
     ELSE IF dup > 0 THEN Err("duplicate column '" \o e.cols[dup] \o "'", f)
     ELSE IF bad # "" THEN Err(bad, f)
     ELSE IF Len(q) = 1 THEN Err("column '" \o q[1] \o "' not found", f)
     ELSE IF Len(q) > 1 THEN Err(ToString(Len(q)) \o " columns not found: '" \o Join(q, "', '") \o "'", f)
     ELSE Val(Len(e.cols))
Opened(z, e) ==
  LET ls == Lines(e.text)
      h == HeaderCells(ls[1], e.delim)
  IN [cols |-> z.cols \cup SeqSet(e.cols), open |-> TRUE, name |-> e.name, width |-> Len(e.cols), delim |-> e.delim,
      known |-> z.cols \cup SeqSet(e.cols), pos |-> [c \in SeqSet(e.cols) |-> CHOOSE i \in 1..Len(h) : h[i] = c],
      rest |-> Tail(ls), row |-> 0, vals |-> <<>>, bad |-> FALSE]

Next1(z) ==
  IF z.rest = <<>> THEN [x |-> Val(<<FALSE, z.row>>), st |-> z]
  ELSE LET q == Cells(Head(z.rest), z.delim, z.width)
           y == [z EXCEPT !.rest = Tail(@), !.row = @ + 1]
       IN IF Len(q) > z.width THEN [x |-> Err("too many columns", y), st |-> [y EXCEPT !.bad = TRUE]]
          ELSE IF Len(q) < z.width THEN [x |-> Err("not enough columns", y), st |-> [y EXCEPT !.bad = TRUE]]
          ELSE [x |-> Val(<<TRUE, y.row>>), st |-> [y EXCEPT !.vals = q, !.bad = FALSE]]

Cell(z, c) == IF z.row = 0 THEN Err("'nextRow' must be called before calling 'get'", z)
              ELSE IF c \notin z.known THEN Err("unrecognized column '" \o c \o "'", z)
              ELSE IF c \notin DOMAIN z.pos THEN Err("invalid column '" \o c \o "'", z)
              ELSE Val(z.vals[z.pos[c]])

MaxU64 == "18446744073709551615"
\* an unsigned number in decimal digits, at most max (given as digits; "0" = only the limit of 64 bits)
ToNum(z, c, t, max) ==
  IF t = "" \/ ~AllDigits(t) \/ NumLess(MaxU64, Canon(t)) THEN ErrVal("failed to convert to unsigned number", z, c, t)
  ELSE IF max # "0" /\ NumLess(max, Canon(t)) THEN ErrVal("exceeded max value of " \o max, z, c, t)
  ELSE Val(Canon(t))
ToBool(z, c, t) == IF t \in {"Y", "T"} THEN Val(TRUE) ELSE IF t \in {"", "N", "F"} THEN Val(FALSE)
                   ELSE ErrVal("failed to convert to bool", z, c, t)
UpHex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"}
\* bytes: number of bytes of the text (differs from its length only for non-ASCII text)
ToCode(z, c, t, bytes) == IF bytes \notin {4, 5} THEN ErrVal("failed to convert to Code, size must be 4 or 5", z, c, t)
                   ELSE IF \E i \in 1..Len(t) : Ch(t, i) \notin UpHex THEN ErrVal("failed to convert to Code, invalid hex", z, c, t)
                   ELSE Val(HexOf(t))
Limit(kind, max) == CASE kind \in {"u8", "ou8"} -> "255" [] kind \in {"u16", "ou16"} -> "65535" [] OTHER -> max
Numeric == {"u64", "u8", "u16"}
Optional == {"ou64", "ou8", "ou16"}
NonAscii(t) == \E i \in 1..Len(t) : Ord(Ch(t, i)) = 0
Get(z, e) ==
  LET g == Cell(z, e.c) IN
  IF Fail(g) THEN g
  ELSE CASE e.kind = "get" -> g
         [] e.kind = "empty" -> Val(g.v = "")
         [] e.kind \in Numeric -> ToNum(z, e.c, g.v, Limit(e.kind, e.max))
         [] e.kind \in Optional -> IF g.v = "" THEN Val("none") ELSE ToNum(z, e.c, g.v, Limit(e.kind, e.max))
         [] e.kind = "bool" -> ToBool(z, e.c, g.v)
         [] e.kind = "code" -> ToCode(z, e.c, g.v, IF NonAscii(g.v) THEN e.bytes ELSE Len(g.v))

Apply(z, e) ==
  CASE e.op = "col" -> [x |-> Val(e.c), st |-> [z EXCEPT !.cols = @ \cup {e.c}]]
    [] e.op = "open" -> LET x == Open(z, e) IN
         [x |-> x, st |-> IF Fail(x) THEN [z EXCEPT !.cols = @ \cup SeqSet(e.cols)] ELSE Opened(z, e)]
    [] e.op = "next" -> Next1(z)
    [] e.op = "get" -> [x |-> Get(z, e), st |-> z]
    [] e.op = "info" -> [x |-> Val(<<z.width, z.row, z.name>>), st |-> z]
=============================================================================
