-------------------------------- MODULE Stats --------------------------------
(* The statistics report of files and directories, given the kanji data z (see *)
(* KanjiData) and the character counts of Utf8Count. The report is a sequence  *)
(* of pieces of bytes; a piece [t, alt] with two forms is a percentage that    *)
(* lies exactly between two displayed values.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
C == INSTANCE Utf8Count
KD == INSTANCE KanjiData
T == INSTANCE Text
B(t) == [i \in 1..Len(t) |-> T!Ord(T!Ch(t, i))]
NL == <<10>>
P(t) == <<[t |-> t, alt |-> t]>>
Spaces(n) == [i \in 1..n |-> 32]
PadL(t, w) == IF Len(t) < w THEN Spaces(w - Len(t)) \o t ELSE t
PadR(t, w) == IF Len(t) < w THEN t \o Spaces(w - Len(t)) ELSE t
N(n) == B(ToString(n))
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
RECURSIVE JoinB(_, _, _)
JoinB(q, i, sep) == IF i > Len(q) THEN <<>> ELSE (IF i > 1 THEN sep ELSE <<>>) \o q[i] \o JoinB(q, i + 1, sep)

\* ---- 100 a / b with d decimals: the nearest value; between two of them either one, or the even one when the value is exact in binary
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

DecText(n, d) == LET w == n \div Pow(10, d)
                     f == N(n % Pow(10, d)) IN N(w) \o B(".") \o [i \in 1..(d - Len(f)) |-> 48] \o f
Percent(a, b, d, width) ==
  LET x == 100 * a * Pow(10, d)
      w == x \div b
      rest == 2 * (x % b)
      exact == (2 * w + 1) % Pow(5, d) = 0
      even == IF w % 2 = 0 THEN w ELSE w + 1
      p(n) == PadL(DecText(n, d), width)
  IN IF rest < b THEN P(p(w)) ELSE IF rest > b THEN P(p(w + 1))
     ELSE IF exact THEN P(p(even)) ELSE <<[t |-> p(w), alt |-> p(w + 1)]>>

\* ---- entries: c count, b bytes of the name, k kanji of that name ("" none)
TypeNames == KD!TypeList \o <<"None">>
TypeRank(t) == CHOOSE i \in 1..9 : TypeNames[i] = t
TypeOf(z, x) == IF x.k = "" THEN "None" ELSE z.recs[x.k].type
FreqOf(z, x) == LET m == KD!MaxFreqOf(z) IN IF x.k = "" THEN m + 1 ELSE IF z.recs[x.k].freq = 0 THEN m ELSE z.recs[x.k].freq
RECURSIVE BytesLess(_, _)
BytesLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE BytesLess(Tail(a), Tail(b))
Less(x, y) == IF x.c # y.c THEN x.c > y.c ELSE IF x.f # y.f THEN x.f < y.f ELSE IF x.ty # y.ty THEN x.ty < y.ty ELSE BytesLess(x.b, y.b)
RECURSIVE SortCounts(_)
SortCounts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Less(x, y) IN <<m>> \o SortCounts(S \ {m})

\* ---- the kinds of characters, in report order; text: the name of a character given its bytes
Kinds == <<"Hiragana", "Katakana", "Common Kanji", "Rare Kanji", "Non-UCD Kanji", "MB-Punctuation", "MB-Symbol", "MB-Letter", "Unrecognized">>
IsKanjiKind(kd) == kd \in {"Common Kanji", "Rare Kanji", "Non-UCD Kanji"}
Belongs(z, text, kd, b) ==
  CASE kd = "Hiragana" -> C!One("hiragana", b) [] kd = "Katakana" -> C!One("katakana", b)
    [] kd = "Common Kanji" -> C!One("common", b) /\ KD!HasUcd(z, text[b])
    [] kd = "Rare Kanji" -> C!One("rare", b) /\ KD!HasUcd(z, text[b])
    [] kd = "Non-UCD Kanji" -> C!One("kanji", b) /\ ~KD!HasUcd(z, text[b])
    [] kd = "MB-Punctuation" -> C!IsPunct(b, FALSE, TRUE) [] kd = "MB-Symbol" -> C!One("symbol", b) [] kd = "MB-Letter" -> C!One("letter", b)
    [] kd = "Unrecognized" -> ~C!One("recognized", b)
Entries(z, text, kd, n) ==
  {LET x == [c |-> n.map[b], b |-> b, k |-> IF IsKanjiKind(kd) THEN KD!FindByName(z, text[b]) ELSE ""]
   IN x @@ [f |-> FreqOf(z, x), ty |-> TypeRank(TypeOf(z, x))] : b \in {y \in DOMAIN n.map : Belongs(z, text, kd, y)}}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.c + Total(S \ {x})

TotalLine(name, total, unique) == B(">>> ") \o PadL(B(name), 16) \o B(": ") \o PadL(N(total), 6) \o B(", unique: ") \o PadL(N(unique), 4)
Shown(q) == JoinB([i \in 1..(IF Len(q) < 5 THEN Len(q) ELSE 5) |-> q[i].b \o B(" ") \o N(q[i].c)], 1, B(", "))
TypeLine(q, t, total) ==
  LET own == SelectSeq(q, LAMBDA x : x.ty = t)
      n == Total({own[i] : i \in 1..Len(own)})
  IN IF own = <<>> THEN <<>>
     ELSE P(TotalLine("[" \o TypeNames[t] \o "] ", n, Len(own)) \o B(", ")) \o Percent(n, total, 2, 6) \o P(B("%  (") \o Shown(own) \o B(")") \o NL)
\* the file with most of a character (the first by name of several)
TopFile(n, b) == LET S == {p \in DOMAIN n.tags : p[1] = b}
                     best == {p \in S : \A q \in S : n.tags[q] <= n.tags[p]}
                 IN (CHOOSE p \in best : \A q \in best \ {p} : BytesLess(p[2], q[2]))[2]
CountText(z, x) ==
  B("[") \o x.b \o B(" ") \o PadL(N(x.c), 4) \o B("]") \o
  (IF x.k = "" THEN B(", ") \o PadL(B("U+" \o KD!UniText(C!Decode(x.b))), 7)
   ELSE LET k == z.recs[x.k] IN PadL(N(k.freq), 5) \o B(", " \o (IF k.level = "None" THEN "--" ELSE k.level) \o ", " \o k.type))
Breakdown(z, kd, q, n, ranks) ==
  B(">>> Showing Breakdown for '" \o kd \o "':") \o NL \o B("  Rank  [Val Num]" \o (IF kd \in {"Common Kanji", "Rare Kanji"} THEN " Freq, LV, Type" ELSE ", Unicode, Highest Count File")) \o NL
  \o Flat([i \in 1..Len(q) |-> B("  ") \o (IF ranks THEN PadR(N(i), 5) \o B(" ") ELSE <<>>) \o CountText(z, q[i]) \o (IF q[i].k = "" THEN B(", ") \o TopFile(n, q[i].b) ELSE <<>>) \o NL])
Section(z, text, kd, n, full) ==
  LET S == Entries(z, text, kd, n)
      q == SortCounts(S)
      total == Total(S)
  IN IF S = {} THEN <<>>
     ELSE P(TotalLine(kd, total, Len(q)))
          \o (IF kd = "Common Kanji" THEN P(B(", 100.00%") \o NL) \o Flat([t \in 1..9 |-> TypeLine(q, t, total)])
              ELSE IF IsKanjiKind(kd) THEN P(PadL(B("("), 12) \o Shown(q) \o B(")") \o NL) ELSE P(NL))
          \o (IF kd = "Unrecognized" \/ (IsKanjiKind(kd) /\ full) THEN P(Breakdown(z, kd, q, n, full)) ELSE <<>>)
Header(n, name) ==
  B(">>> Stats for: '") \o name \o B("'")
  \o (IF n.files > 1 THEN B(" (" \o ToString(n.files) \o " files") \o (IF n.dirs > 1 THEN B(" from " \o ToString(n.dirs) \o " directories") ELSE <<>>) \o B(")") ELSE <<>>)
  \o B(" - showing top 5 Kanji per type")
  \o (IF n.repl + n.comb + n.var > 0 THEN NL \o B(">>> Furigana Removed: " \o ToString(n.repl) \o ", Combining Marks Replaced: " \o ToString(n.comb) \o ", Variation Selectors: " \o ToString(n.var)) ELSE <<>>)
  \o (IF n.err > 0 THEN B(", Errors: " \o ToString(n.err)) ELSE <<>>) \o NL
Counted(root, find, dbg) == C!DoFile(C!CFresh([find |-> find, filter |-> "all", dbg |-> dbg]), root, TRUE, TRUE, TRUE)
Removes(kd) == kd \in {"Hiragana", "Katakana", "MB-Letter"}
Report(z, text, f, full, verbose) ==
  LET with == Counted(f.root, TRUE, verbose)
      without == Counted(f.root, FALSE, FALSE)
      of(i) == IF Removes(Kinds[i]) THEN with ELSE without
      tot == [i \in 1..5 |-> Total(Entries(z, text, Kinds[i], of(i)))]
      all == tot[1] + tot[2] + tot[3] + tot[4] + tot[5]
      part(i) == IF tot[i] = 0 THEN <<>> ELSE P(B(Kinds[i] \o ": ")) \o Percent(tot[i], all, 1, 0) \o P(B("%, "))
  IN P((IF verbose THEN B(">>> Showing all Furigana replacements:") \o NL \o with.debug ELSE <<>>) \o Header(with, f.shown))
     \o Flat([i \in 1..9 |-> Section(z, text, Kinds[i], of(i), full)])
     \o P(B(">>> Total Kana+Kanji: ") \o N(all))
     \o (IF all = 0 THEN <<>> ELSE P(B(" (")) \o part(1) \o part(2) \o P(B("Kanji: ")) \o Percent(tot[3] + tot[4] + tot[5], all, 1, 0) \o P(B("%)")))
     \o P(NL)

\* ---- the command line
Help == B("kanjiStats [-bhv] file [file ...]:") \o NL \o B("  -b: show full Kanji breakdown for 'file' (instead of just a summary)") \o NL
        \o B("  -h: show help message for command-line options") \o NL \o B("  -v: show 'before' and 'after' versions of lines changed by Furigana removal") \o NL
Dom(m) == [E |-> "DomainError", m |-> m]
\* a: arguments (text); result: an error, help, or the settings and the indexes of the files
RECURSIVE Options(_, _, _)
Options(a, i, o) ==
  IF i > Len(a) THEN IF o.files = <<>> /\ ~o.debug THEN [fail |-> Dom("please specify at least one option or '-h' for help")] ELSE o
  ELSE LET x == a[i] IN
       IF x \in {"-debug", "-info"} THEN Options(a, i + 1, o)
       ELSE IF x = "-data" /\ i < Len(a) THEN Options(a, i + 2, o)
       ELSE IF ~o.end /\ T!StartsWith(x, "-")
       THEN IF x = "-h" THEN [help |-> TRUE]
            ELSE IF x = "-b" THEN Options(a, i + 1, [o EXCEPT !.b = TRUE])
            ELSE IF x = "-v" THEN Options(a, i + 1, [o EXCEPT !.v = TRUE])
            ELSE IF x = "--" THEN Options(a, i + 1, [o EXCEPT !.end = TRUE])
            ELSE [fail |-> Dom("illegal option '" \o x \o "' use -h for help")]
       ELSE Options(a, i + 1, [o EXCEPT !.files = Append(@, i)])
RECURSIVE Reports(_, _, _, _, _)
Reports(z, text, e, o, i) ==
  IF i > Len(o.files) THEN [out |-> <<>>]
  ELSE LET f == e.parts[o.files[i]] IN
       IF f.k = "missing" THEN [fail |-> Dom("file not found: " \o e.args[o.files[i]])]
       ELSE LET rest == Reports(z, text, e, o, i + 1) IN
            IF "fail" \in DOMAIN rest THEN rest ELSE [out |-> Report(z, text, f, o.b, o.v) \o rest.out]
\* whether bytes from position p are the pieces from i
RECURSIVE Matches(_, _, _, _)
Matches(bs, p, q, i) ==
  IF i > Len(q) THEN p = Len(bs) + 1
  ELSE LET is(t) == p + Len(t) - 1 <= Len(bs) /\ SubSeq(bs, p, p + Len(t) - 1) = t IN
       \/ is(q[i].t) /\ Matches(bs, p + Len(q[i].t), q, i + 1)
       \/ q[i].alt # q[i].t /\ is(q[i].alt) /\ Matches(bs, p + Len(q[i].alt), q, i + 1)
TextOf(tab) == [b \in {tab[i].b : i \in 1..Len(tab)} |-> tab[CHOOSE i \in 1..Len(tab) : tab[i].b = b].t]
SApply(kd, e) ==
  LET z == kd.z IN
  CASE e.op = "data" -> LET y == KD!Load(e.D) IN [ok |-> y.fail = {} /\ IF e.opt = "" THEN e.r = [v |-> y.errs] ELSE e.r = [v |-> "loaded"], exp |-> y.fail \cup KD!SeqSet(y.errs), st |-> [D |-> e.D, z |-> y, opt |-> e.opt]]
    [] e.op = "run" ->
         LET o == Options(e.args, 1, [b |-> FALSE, v |-> FALSE, end |-> FALSE, files |-> <<>>, debug |-> kd.opt # ""])
             x == IF "fail" \in DOMAIN o THEN o ELSE IF "help" \in DOMAIN o THEN [out |-> P(Help)] ELSE Reports(z, TextOf(e.tab), e, o, 1)
         IN IF "fail" \in DOMAIN x THEN [ok |-> e.r = x.fail, exp |-> x.fail, st |-> kd]
            ELSE [ok |-> "v" \in DOMAIN e.r /\ Matches(e.r.v, 1, x.out, 1), exp |-> Flat([i \in 1..Len(x.out) |-> x.out[i].t]), st |-> kd]
    \* the program: what is written to both streams, and its exit status
    [] e.op = "prog" ->
         LET o == Options(e.args, 1, [b |-> FALSE, v |-> FALSE, end |-> FALSE, files |-> <<>>, debug |-> FALSE])
             x == IF "fail" \in DOMAIN o THEN o ELSE IF "help" \in DOMAIN o THEN [out |-> P(Help)] ELSE Reports(z, TextOf(e.tab), e, o, 1)
         IN IF "fail" \in DOMAIN x THEN [ok |-> "v" \in DOMAIN e.r /\ e.r.v.code = 1 /\ e.r.v.err = x.fail.m \o "\n", exp |-> x.fail, st |-> kd]
            ELSE [ok |-> "v" \in DOMAIN e.r /\ e.r.v.code = 0 /\ e.r.v.err = "" /\ Matches(e.r.v.out, 1, x.out, 1), exp |-> Flat([i \in 1..Len(x.out) |-> x.out[i].t]), st |-> kd]
    \* counts of names compared pairwise
    [] e.op = "order" ->
         LET q == [i \in 1..Len(e.a) |-> LET x == [c |-> e.a[i].c, b |-> e.a[i].b, k |-> KD!FindByName(z, e.a[i].t)] IN x @@ [f |-> FreqOf(z, x), ty |-> TypeRank(TypeOf(z, x))]]
             x == [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> Less(q[i], q[j])]]
         IN [ok |-> e.r = [v |-> x], exp |-> x, st |-> kd]
=============================================================================
