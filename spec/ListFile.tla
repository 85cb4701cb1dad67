------------------------------ MODULE ListFile -------------------------------
(* List files: every name once, in file order, 1-based positions, unique       *)
(* within a file and across the files of one family.                           *)
(* A file's text is a sequence of characters (one string each).                *)
(* State: what each family has loaded so far:                                  *)
(*   plain  names of all plain lists;  level, kyu  names of the typed lists    *)
(*   dirty  a load failed: what it left behind is not specified until a reset  *)
(*   list   the last list loaded                                               *)
EXTENDS Text
CONSTANTS MB(_)   \* is a character a recognized multi-byte character

Val(x) == [v |-> x]
Err(m) == [E |-> "DomainError", m |-> m]
Fail(x) == "E" \in DOMAIN x
Fresh == [plain |-> {}, level |-> {}, kyu |-> {}, dirty |-> FALSE, list |-> <<>>]

RECURSIVE SplitC(_, _)
\* pieces of a character sequence between occurrences of d; an empty last piece does not count
SplitC(q, d) ==
  IF q = <<>> THEN <<>>
  ELSE IF \A i \in 1..Len(q) : q[i] # d THEN <<q>>
  ELSE LET i == CHOOSE i \in 1..Len(q) : q[i] = d /\ \A j \in 1..(i - 1) : q[j] # d
       IN <<SubSeq(q, 1, i - 1)>> \o SplitC(SubSeq(q, i + 1, Len(q)), d)
Flat(q) == Join(q, "")

Family(e) == IF e.type = "plain" THEN "plain" ELSE IF e.type \in {"N5", "N4", "N3", "N2", "N1"} THEN "level" ELSE "kyu"
At(n, e) == " - line: " \o ToString(n) \o ", file: " \o e.file

MaxEntries == 65534

\* the tokens of a file: [line, tok, whole (is it the whole line)]
RECURSIVE TokFrom(_, _)
TokFrom(ls, n) == IF n > Len(ls) THEN <<>>
  ELSE LET p == SplitC(ls[n], " ") IN [i \in 1..Len(p) |-> [line |-> n, tok |-> p[i], whole |-> Len(ls[n]) = Len(p[i])]] \o TokFrom(ls, n + 1)
Tokens(e) == TokFrom(SplitC(e.chars, "\n"), 1)

\* one token after another: list so far, duplicates of other lists of the family
RECURSIVE LoadFrom(_, _, _, _, _, _)
LoadFrom(e, used, t, i, list, dups) ==
  IF i > Len(t) THEN
    IF dups = <<>> THEN [x |-> Val(list), list |-> list]
    ELSE [x |-> Err("found " \o ToString(Len(dups)) \o " duplicates in " \o e.name \o ": " \o Join(dups, " ") \o ", file: " \o e.file), list |-> list]
  ELSE LET w == Flat(t[i].tok)
           bad(m) == [x |-> Err(m \o At(t[i].line, e)), list |-> list]
       IN IF e.one /\ ~t[i].whole THEN bad("got multiple tokens")
          ELSE IF Len(t[i].tok) # 1 \/ ~MB(w) THEN bad("invalid multi-byte token '" \o w \o "'")
          ELSE IF \E j \in 1..Len(list) : list[j] = w THEN bad("got duplicate token '" \o w)
          ELSE IF w \in used THEN
            IF e.type = "plain" THEN bad("found globally non-unique entry '" \o w \o "'")
            ELSE LoadFrom(e, used, t, i + 1, list, Append(dups, w))
          ELSE LoadFrom(e, used, t, i + 1, Append(list, w), dups)
SeqSet(q) == {q[i] : i \in 1..Len(q)}

Index(list, w) == IF \E i \in 1..Len(list) : list[i] = w THEN CHOOSE i \in 1..Len(list) : list[i] = w ELSE 0

\* what a list answers: its name, type, names, and for each asked name whether it exists and its position
Answer(e, list) == [name |-> e.name, level |-> IF Family(e) = "level" THEN e.type ELSE "None", kyu |-> IF Family(e) = "kyu" THEN e.type ELSE "None",
                    list |-> list, size |-> Len(list), text |-> Join(list, ""),
                    ask |-> [i \in 1..Len(e.ask) |-> Index(list, e.ask[i])], has |-> [i \in 1..Len(e.ask) |-> Index(list, e.ask[i]) > 0]]

Load(z, e) ==
  IF e.kind # "file" THEN [x |-> Err("can't open " \o e.file), st |-> z]
  ELSE LET f == Family(e)
           l == LoadFrom(e, z[f], Tokens(e), 1, <<>>, <<>>)
       IN IF Fail(l.x) THEN [x |-> l.x, st |-> [z EXCEPT !.dirty = TRUE, !.list = <<>>]]
          ELSE [x |-> Val(Answer(e, l.list)), st |-> [z EXCEPT ![f] = @ \cup SeqSet(l.list), !.list = l.list]]

\* n consecutive distinct names, from the first on
Big(z, e) == IF e.n <= MaxEntries THEN Val(<<e.n, e.n, 0>>) ELSE Err("exceeded '65534' entries, file: " \o e.file)

GetFile(e) ==
  LET first == e.dir \o "/" \o e.file
      p == IF e.plain # "file" /\ ~e.ext THEN e.txt ELSE e.plain
  IN IF e.dirkind # "dir" THEN Err(e.dir \o " is not a directory")
     ELSE IF p = "none" THEN Err(e.dir \o " must contain '" \o e.file \o (IF e.ext THEN "'" ELSE "' (also tried '.txt' extension)"))
     ELSE IF p = "dir" THEN Err(e.file \o " must be a regular file")
     ELSE Val(IF e.plain # "file" /\ ~e.ext THEN first \o ".txt" ELSE first)

PrintList(e) == IF e.names = <<>> THEN "" ELSE ">>> Found " \o ToString(Len(e.names)) \o " " \o e.type
                \o (IF e.group = "" THEN "" ELSE " in " \o e.group) \o ": " \o Join(e.names, " ") \o "\n"

Apply(z, e) ==
  CASE e.op = "reset" -> [x |-> Val(0), st |-> Fresh]
    [] e.op = "load" -> Load(z, e)
    [] e.op = "big" -> [x |-> Big(z, e), st |-> [z EXCEPT !.dirty = TRUE]]
    [] e.op = "getfile" -> [x |-> GetFile(e), st |-> z]
    [] e.op = "print" -> [x |-> Val(PrintList(e)), st |-> z]
=============================================================================
