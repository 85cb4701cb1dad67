------------------------------- MODULE Table ---------------------------------
(* A table of texts, printed with borders or as Markdown. Texts are anything   *)
(* \o joins: Lit gives a literal, Width the terminal columns of a text, Escaped*)
(* the text with every pipe escaped. State: title, count (number the rows in   *)
(* their first column), rows, sections (rows that start a section).            *)
EXTENDS Integers, Sequences
CONSTANTS Lit(_), Width(_), Escaped(_), Number(_)
New(title, count) == [title |-> title, count |-> count, rows |-> <<>>, sections |-> {}]
Add(z, row, section) ==
  LET n == Len(z.rows) + 1 IN
  [z EXCEPT !.rows = Append(@, (IF z.count THEN <<Number(n)>> ELSE <<>>) \o row), !.sections = IF section THEN @ \cup {n} ELSE @]
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOver(_, _)
MaxOver(F, n) == IF n = 0 THEN 0 ELSE Max2(F[n], MaxOver(F, n - 1))
Columns(z) == Max2(Len(z.title), MaxOver([i \in 1..Len(z.rows) |-> Len(z.rows[i])], Len(z.rows)))
Cell(row, c) == IF c <= Len(row) THEN row[c] ELSE Lit("")
Widths(z) == LET n == Len(z.rows) IN
  [c \in 1..Columns(z) |-> Max2(IF c <= Len(z.title) THEN Width(z.title[c]) ELSE 0, MaxOver([i \in 1..n |-> IF c <= Len(z.rows[i]) THEN Width(z.rows[i][c]) ELSE 0], n))]
RECURSIVE Fill(_, _)
Fill(ch, n) == IF n <= 0 THEN Lit("") ELSE Lit(ch) \o Fill(ch, n - 1)
RECURSIVE Over(_, _)
Over(F, n) == IF n = 0 THEN Lit("") ELSE Over(F, n - 1) \o F[n]
Line(w, row, fill, delim) ==
  Over([c \in 1..Len(w) |-> Lit(delim) \o Lit(fill) \o Cell(row, c) \o Fill(fill, w[c] + 1 - Width(Cell(row, c)))], Len(w)) \o Lit(delim) \o Lit("\n")
Border(w) == Line(w, <<>>, "-", "+")
Print(z) ==
  LET w == Widths(z)
      n == Len(z.rows)
  IN IF w = <<>> THEN Lit("")
     ELSE Border(w) \o (IF z.title = <<>> THEN Lit("") ELSE Line(w, z.title, " ", "|"))
          \o Over([i \in 1..n |-> (IF i \in z.sections THEN Border(w) ELSE Lit("")) \o Line(w, z.rows[i], " ", "|")], n) \o Border(w)
Bold(t) == IF t = Lit("") THEN t ELSE Lit("**") \o t \o Lit("**")
MdLine(n, row, bold) == Over([c \in 1..n |-> Lit("| ") \o (LET t == Escaped(Cell(row, c)) IN IF bold THEN Bold(t) ELSE t) \o Lit(" ")], n) \o Lit("|\n")
Markdown(z) ==
  LET n == Columns(z) IN
  IF n = 0 THEN Lit("")
  ELSE MdLine(n, z.title, FALSE) \o Over([c \in 1..n |-> Lit("| --- ")], n) \o Lit("|\n")
       \o Over([i \in 1..Len(z.rows) |-> MdLine(n, z.rows[i], i \in z.sections)], Len(z.rows))
=============================================================================
