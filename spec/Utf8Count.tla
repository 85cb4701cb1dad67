------------------------------ MODULE Utf8Count ------------------------------
(* Counting the multi-byte characters of strings, files and directories.       *)
(* State z: map (character -> count), tags (<<character, tag>> -> count),      *)
(* files, dirs, repl (strings changed by removing furigana), last (last tag    *)
(* with such a string), err, var, comb; and the settings find (remove          *)
(* furigana?), filter, dbg. Text is bytes.                                     *)
EXTENDS CharClass
U8 == INSTANCE Utf8Char

\* ---- removing furigana: a kanji or wide letter keeps its place, the bracketed kana after it goes
OpenC == 65288   \* （
CloseC == 65289  \* ）
Open == <<239, 188, 136>>
Close == <<239, 188, 137>>
IsBase(c) == In("kanji", c) \/ c \in 65024..65039 \/ c \in 65280..65519
RECURSIVE KanaEnd(_, _)
KanaEnd(q, i) == IF i <= Len(q) /\ In("kana", q[i]) THEN KanaEnd(q, i + 1) ELSE i
RECURSIVE FoldFrom(_, _)
FoldFrom(q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF i < Len(q) /\ q[i + 1] = OpenC /\ IsBase(q[i])
       THEN LET e == KanaEnd(q, i + 2) IN IF e > i + 2 /\ e <= Len(q) /\ q[e] = CloseC THEN <<q[i]>> \o FoldFrom(q, e + 1) ELSE <<q[i]>> \o FoldFrom(q, i + 1)
       ELSE <<q[i]>> \o FoldFrom(q, i + 1)
Fold(q) == FoldFrom(q, 1)

\* ---- a file's lines are counted in chunks: a line whose last bracket is open is joined with the next one up to
\* its close bracket, as is a line followed by one that starts with brackets
RECURSIVE FindAt(_, _, _)
FindAt(bs, w, i) == IF i + Len(w) - 1 > Len(bs) THEN 0 ELSE IF SubSeq(bs, i, i + Len(w) - 1) = w THEN i ELSE FindAt(bs, w, i + 1)
RECURSIVE FindLast(_, _, _)
FindLast(bs, w, i) == IF i < 1 THEN 0 ELSE IF i + Len(w) - 1 <= Len(bs) /\ SubSeq(bs, i, i + Len(w) - 1) = w THEN i ELSE FindLast(bs, w, i - 1)
RECURSIVE Chunks(_, _, _, _, _)
\* (o, c: the brackets)
Chunks(lines, i, held, o, c) ==
  IF i > Len(lines) THEN IF held = <<>> THEN <<>> ELSE <<held>>
  ELSE LET l == lines[i]
           close == FindAt(l, c, 1)
           open == FindAt(l, o, 1)
           unclosed == FindLast(held, o, Len(held)) > FindLast(held, c, Len(held))
           join == held # <<>> /\ close > 0 /\ IF unclosed THEN open = 0 \/ close < open ELSE open = 1
           e == close + Len(c) - 1
       IN IF join THEN <<held \o SubSeq(l, 1, e)>> \o Chunks(lines, i + 1, SubSeq(l, e + 1, Len(l)), o, c)
          ELSE (IF held = <<>> THEN <<>> ELSE <<held>>) \o Chunks(lines, i + 1, l, o, c)

\* ---- one string
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Bump(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ f
Allowed(filter, t) == CASE filter = "all" -> TRUE
  [] filter = "unrecognized" -> ~One("recognized", t)
  [] filter = "punct" -> IsPunct(t, FALSE, TRUE)
  [] OTHER -> One(filter, t)
RECURSIVE Walk(_, _, _, _, _)
Walk(z, n, q, hasTag, tag) ==
  LET x == U8!NextChar(n, q, TRUE) IN
  IF ~x.found THEN [z EXCEPT !.err = @ + x.st.err, !.var = @ + x.st.var, !.comb = @ + x.st.comb]
  ELSE Walk(IF ~Allowed(z.filter, x.r) THEN z
            ELSE [z EXCEPT !.map = Bump(@, x.r), !.tags = IF hasTag THEN Bump(@, <<x.r, tag>>) ELSE @, !.added = @ + 1], n, x.st, hasTag, tag)
TagText == <<84, 97, 103, 32, 39>>
Add(z, bs, hasTag, tag) ==
  LET d == Decode(bs)
      f == Fold(d)
      n == IF z.find /\ f # d THEN Encode(f) ELSE bs
      count == Digits(z.repl + 1)
      new == hasTag /\ tag # z.last
      y == IF ~z.find \/ f = d THEN z
           ELSE [z EXCEPT !.repl = @ + 1, !.last = IF new THEN tag ELSE @, !.lasts = IF hasTag THEN @ \cup {tag} ELSE @,
                   !.debug = IF ~z.dbg THEN @ ELSE @ \o (IF new THEN TagText \o tag \o <<39, 10>> ELSE <<>>) \o <<32, 32>> \o count \o <<32, 58, 32>> \o bs \o <<10>>
                               \o [i \in 1..(Len(count) + 3) |-> 32] \o <<58, 32>> \o n \o <<10>>]
  IN Walk(y, n, U8!Start, hasTag, tag)
\* ---- a file or directory: k = "f" (lines), "d" (sub), "l" a symbolic link, "x" something else
RECURSIVE AddAll(_, _, _, _)
AddAll(z, q, hasTag, tag) == IF q = <<>> THEN z ELSE AddAll(Add(z, q[1], hasTag, tag), Tail(q), hasTag, tag)
RECURSIVE DoFile(_, _, _, _, _)
RECURSIVE DoAll(_, _, _, _, _)
DoFile(z, n, tag, names, recurse) ==
  LET y == CASE n.k = "f" -> AddAll([z EXCEPT !.files = @ + 1], IF z.find THEN Chunks(n.lines, 1, <<>>, Open, Close) ELSE n.lines, tag, n.name)
             [] n.k = "d" -> DoAll([z EXCEPT !.dirs = @ + 1], n.sub, tag, names, recurse)
             [] OTHER -> z
  IN IF n.k \in {"f", "d"} /\ names THEN Add(y, n.name, tag, n.name) ELSE y
DoAll(z, q, tag, names, recurse) ==
  IF q = <<>> THEN z
  ELSE DoAll(IF q[1].k = "l" \/ ~(recurse \/ q[1].k = "f") THEN z ELSE DoFile(z, q[1], tag, names, recurse), Tail(q), tag, names, recurse)

CFresh(i) == [map |-> <<>>, tags |-> <<>>, files |-> 0, dirs |-> 0, repl |-> 0, last |-> <<>>, lasts |-> {}, err |-> 0, var |-> 0, comb |-> 0, added |-> 0, debug |-> <<>>,
              find |-> i.find, filter |-> i.filter, dbg |-> i.dbg]
Set(q) == {q[i] : i \in 1..Len(q)}
Counts(z) == {<<c, z.map[c]>> : c \in DOMAIN z.map}
TagCounts(z) == {<<p[1], p[2], z.tags[p]>> : p \in DOMAIN z.tags}
\* order in which a directory's files are visited is not fixed, so neither is the last tag of a tree
Agrees(v, z, tree) ==
  /\ Set(v.map) = Counts(z) /\ Len(v.map) = Cardinality(DOMAIN z.map)
  /\ Set(v.tags) = TagCounts(z) /\ Len(v.tags) = Cardinality(DOMAIN z.tags)
  /\ v.added = z.added /\ v.files = z.files /\ v.dirs = z.dirs /\ v.repl = z.repl /\ v.err = z.err /\ v.var = z.var /\ v.comb = z.comb
  /\ v.debug = z.debug
  /\ v.last = z.last \/ (tree /\ v.last \in z.lasts)
CApply(z0, e) ==
  LET z == [z0 EXCEPT !.added = 0, !.debug = <<>>, !.lasts = {}]
      \* "run": a kanji followed by n kana in brackets, as one string without tag
      y == CASE e.op = "run" -> [Add(z, Encode1(28450), FALSE, <<>>) EXCEPT !.repl = @ + 1] [] e.op = "new" -> z [] e.op = "add" -> Add(z, e.s, e.hasTag, e.tag) [] e.op = "file" -> DoFile(z, e.root, e.tag, e.names, e.recurse) [] OTHER -> z
      tree == e.op = "file" /\ e.root.k = "d"
      exp == [map |-> Counts(y), tags |-> TagCounts(y), added |-> y.added, files |-> y.files, dirs |-> y.dirs, repl |-> y.repl, last |-> y.last, lasts |-> y.lasts,
              err |-> y.err, var |-> y.var, comb |-> y.comb, debug |-> y.debug]
  IN IF e.op = "missing" THEN LET x == [E |-> "DomainError", m |-> "file not found: @/" \o e.text] IN [ok |-> e.r = x, exp |-> x, st |-> z]
     ELSE LET ok == "v" \in DOMAIN e.r /\ Agrees(e.r.v, y, tree) IN [ok |-> ok, exp |-> exp, st |-> IF ok THEN [y EXCEPT !.last = e.r.v.last] ELSE y]
=============================================================================
