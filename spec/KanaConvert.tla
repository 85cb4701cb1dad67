----------------------------- MODULE KanaConvert ------------------------------
(* The kana converter program. A run is its arguments and its input lines; its *)
(* settings are the source ("" = any), the target and the flags. Arguments are *)
(* read left to right; without strings the program prints the chart, or reads  *)
(* lines: interactively (commands and prompts) or as a filter.                 *)
EXTENDS Converter
Ok == ""
DefaultZ == [src |-> "", target |-> "Hiragana", flags |-> 0]
IsOption(a) == a # "" /\ Ch(a, 1) = "-"
TypeOption(a) == Len(a) = 2 /\ Ch(a, 1) = "-" /\ Ch(a, 2) \in {"h", "k", "r", "H", "K", "R"}
Named == [h |-> "Hiragana", k |-> "Katakana", r |-> "Romaji", H |-> "Hiragana", K |-> "Katakana", R |-> "Romaji"]
SetType(z, a) == LET o == Ch(a, 2) IN IF o \in {"h", "k", "r"} THEN [z EXCEPT !.target = Named[o]] ELSE [z EXCEPT !.src = Named[o]]
FlagBit == [h |-> 1, k |-> 2, n |-> 4, r |-> 8]
FlagKeys == {"h", "k", "n", "r"}
SetFlag(z, o) == IF FlagOn(z.flags, FlagBit[o]) THEN z ELSE [z EXCEPT !.flags = @ + FlagBit[o]]

TypeUsage(all) ==
  "  -h: set conversion output to Hiragana" \o (IF all THEN " (default)" ELSE "") \o "\n  -k: set conversion output to Katakana\n  -r: set conversion output to Rōmaji\n" \o
  "  -H: restrict conversion input to Hiragana\n  -K: restrict conversion input to Katakana\n  -R: restrict conversion input to Rōmaji\n"
FullUsage ==
  "usage: kanaConvert -i\n       kanaConvert [-n] string ...\n       kanaConvert -m|-p|-?\n  -i: interactive mode\n" \o
  "  -n: suppress newline on output (for non-interactive mode)\n  -m: print Kana chart in 'Markdown' format and exit\n" \o
  "  -p: print Kana chart aligned for terminal output and exit\n  -?: prints this usage message\n" \o
  "  --: finish options, subsequent args are treated as strings to convert\n" \o
  "  string ...: one or more strings to convert, no strings means read stdin\n  \n" \o
  "options for setting conversion source and target types as well as conversion\nrelated flags can also be specified:\n" \o
  "  -f opt: set 'opt' (can use multiple times to combine options). Options are:\n" \o
  "    h: conform Rōmaji output more closely to 'Modern Hepburn' style\n    k: conform Rōmaji output more closely to 'Kunrei Shiki' style\n" \o
  "    n: no prolonged marks (repeat vowels instead of 'ー' for Hiragana output)\n" \o
  "    r: remove spaces on output (only applies to Hiragana and Katakana output)\n" \o TypeUsage(TRUE)

\* ---- arguments: mode is "" or one of i, m, n, p
RECURSIVE Args(_, _, _, _, _)
Args(a, i, z, mode, strings) ==
  LET Fail(m) == [err |-> m, act |-> "fail", z |-> z, mode |-> mode, strings |-> strings]
      Done(act) == [err |-> "", act |-> act, z |-> z, mode |-> mode, strings |-> strings]
  IN
  IF i > Len(a) THEN
    IF strings # <<>> THEN IF mode \in {"i", "m", "p"} THEN Fail("'string' args can't be combined with '-i', '-m' or '-p'") ELSE Done("strings")
    ELSE IF mode \in {"m", "p"} THEN Done("chart") ELSE Done("read")
  ELSE LET o == a[i] IN
    CASE o = "--" -> Args(<<>>, 1, z, mode, strings \o SubSeq(a, i + 1, Len(a)))
      [] o = "-?" -> Done("usage")
      [] o = "-f" -> IF i = Len(a) THEN Fail("-f must be followed by a flag value")
                     ELSE IF a[i + 1] \notin FlagKeys THEN Fail("illegal option for -f: " \o a[i + 1])
                     ELSE Args(a, i + 2, SetFlag(z, a[i + 1]), mode, strings)
      [] o \in {"-i", "-m", "-n", "-p"} -> IF mode # "" THEN Fail("can only specify one of -i, -m, -n, or -p") ELSE Args(a, i + 1, z, Ch(o, 2), strings)
      [] TypeOption(o) -> Args(a, i + 1, SetType(z, o), mode, strings)
      [] o \notin {"--", "-?", "-f", "-i", "-m", "-n", "-p"} /\ ~TypeOption(o) /\ IsOption(o) -> Fail("illegal option: " \o o)
      [] OTHER -> Args(a, i + 1, z, mode, Append(strings, o))

Converted(z, t) == Cat(Convert(z.src, Chars(t), z.target, z.flags))
\* strings are joined by a space unless spaces are to be removed from kana
Joined(z, strings) == Join([i \in 1..Len(strings) |-> Converted(z, strings[i])], IF z.target = "Romaji" THEN " " ELSE IF NoSpaces(z.flags) THEN "" ELSE "　")

\* ---- session: z has the settings and asking (waiting for the answer to the flag prompt)
Options(z) == ">>> current options: source=" \o (IF z.src = "" THEN "any" ELSE z.src) \o ", target=" \o z.target \o ", flags=" \o FlagText(z.flags) \o
              "\n>>> enter string (c=clear flags, f=set flag, q=quit, h=help, -k|-h|-r|-K|-H|-R):\n"
FlagPrompt == ">>> enter flag option (h=Hepburn, k=Kunrei, n=NoProlongMark, r=RemoveSpaces): "
\* [z, out, end]: what one input line does
Line(z, asking, l) ==
  LET Setting(w) == [z |-> w, asking |-> FALSE, out |-> Options(w), end |-> FALSE] IN
  IF asking THEN IF l \in FlagKeys THEN Setting(SetFlag(z, l)) ELSE [z |-> z, asking |-> TRUE, out |-> FlagPrompt, end |-> FALSE]
  ELSE CASE l = "" -> [z |-> z, asking |-> FALSE, out |-> "", end |-> FALSE]
         [] l = "q" -> [z |-> z, asking |-> FALSE, out |-> "", end |-> TRUE]
         [] l = "c" -> Setting([z EXCEPT !.flags = 0])
         [] l = "f" -> [z |-> z, asking |-> TRUE, out |-> FlagPrompt, end |-> FALSE]
         [] l = "h" -> [z |-> z, asking |-> FALSE, out |-> TypeUsage(FALSE) \o Options(z), end |-> FALSE]
         [] TypeOption(l) -> Setting(SetType(z, l))
         [] IsOption(l) /\ ~TypeOption(l) -> [z |-> z, asking |-> FALSE, out |-> "  illegal option: " \o l \o "\n" \o Options(z), end |-> FALSE]
         [] OTHER -> [z |-> z, asking |-> FALSE, out |-> Converted(z, l) \o "\n", end |-> FALSE]
RECURSIVE Session(_, _, _, _)
Session(z, asking, in, i) ==
  IF i > Len(in) THEN [out |-> "", err |-> IF asking THEN "end of input" ELSE ""]
  ELSE LET a == Line(z, asking, in[i]) IN
       IF a.end THEN [out |-> a.out, err |-> ""]
       ELSE LET b == Session(a.z, a.asking, in, i + 1) IN [out |-> a.out \o b.out, err |-> b.err]
Filtered(z, mode, in) == Join([i \in 1..Len(in) |-> Converted(z, in[i]) \o (IF mode = "n" THEN "" ELSE "\n")], "")

\* ---- chart
WideCells == UNION {{Ch(Table[i].h, j) : j \in 1..Len(Table[i].h)} \cup {Ch(Table[i].k, j) : j \in 1..Len(Table[i].k)} : i \in 1..N0} \cup {"・", "ー", "ゝ", "ゞ", "ヽ", "ヾ"}
RECURSIVE ColumnsOf(_)
ColumnsOf(t) == IF t = "" THEN 0 ELSE (IF Ch(t, 1) \in WideCells THEN 2 ELSE 1) + ColumnsOf(From(t, 2))
Same(t) == t
Pipes(t) == Replace(t, "|", "\\|")
T == INSTANCE Table WITH Lit <- Same, Width <- ColumnsOf, Escaped <- Pipes, Number <- ToString
HiraFirst == 12353 \* ぁ
Syllabary == "ぁあぃいぅうぇえぉおかがきぎくぐけげこごさざしじすずせぜそぞただちぢっつづてでとどなにぬねのはばぱひびぴふぶぷへべぺほぼぽまみむめもゃやゅゆょよらりるれろゎわゐゑをんゔゕゖ"
KataSyllabary == "ァアィイゥウェエォオカガキギクグケゲコゴサザシジスズセゼソゾタダチヂッツヅテデトドナニヌネノハバパヒビピフブプヘベペホボポマミムメモャヤュユョヨラリルレロヮワヰヱヲンヴヵヶ"
HexD(n) == Ch("0123456789ABCDEF", n + 1)
Hex4(n) == HexD(n \div 4096) \o HexD((n \div 256) % 16) \o HexD((n \div 16) % 16) \o HexD(n % 16)
Uni(n) == Hex4(n)
PosOf == [c \in {Ch(Syllabary, i) : i \in 1..Len(Syllabary)} |-> Find(Syllabary, c)]
HiraLess(a, b) == LET x == PosOf[Ch(a, 1)]
                      y == PosOf[Ch(b, 1)] IN IF x # y THEN x < y ELSE IF Len(a) = 1 THEN Len(b) = 2 ELSE IF Len(b) = 1 THEN FALSE ELSE PosOf[Ch(a, 2)] < PosOf[Ch(b, 2)]
RankOf(i) == 1 + Cardinality({j \in 1..N0 : HiraLess(Table[j].h, Table[i].h)})
Ranks == [i \in 1..N0 |-> RankOf(i)]
InOrder == [n \in 1..N0 |-> Table[CHOOSE i \in 1..N0 : Ranks[i] = n]]
Sections == {"la", "ka", "sa", "ta", "na", "ha", "ma", "lya", "ra", "lwa"}
Round(t) == "(" \o t \o ")"
Mono(x) == Len(x.h) = 1
ChartRow(x) ==
  LET hep == RomajiOf(x, 1)
      kun == RomajiOf(x, 2)
  IN <<IF IsVoiced(x) THEN "D" ELSE IF IsSemiVoiced(x) THEN "H" ELSE "P", x.r, x.h, x.k,
       IF Mono(x) THEN Uni(HiraFirst + PosOf[x.h] - 1) ELSE "", IF Mono(x) THEN Uni(HiraFirst + PosOf[x.h] + 95) ELSE "",
       IF hep = x.r THEN "" ELSE Round(hep), IF kun = x.r THEN "" ELSE IF x.vk THEN kun ELSE Round(kun), Join(x.var, ", ")>>
RECURSIVE AddAll(_, _)
AddAll(t, n) == IF n = 0 THEN t ELSE T!Add(AddAll(t, n - 1), ChartRow(InOrder[n]), InOrder[n].r \in Sections)
Chart ==
  LET t0 == T!New(<<"No.", "Type", "Roma", "Hira", "Kata", "HUni", "KUni", "Hepb", "Kunr", "Roma Variants">>, TRUE)
      t1 == AddAll(t0, N0)
      t2 == T!Add(t1, <<"N", "/", "", "・", "", "30FB">>, TRUE)
      t3 == T!Add(t2, <<"N", "", "", "ー", "", "30FC">>, FALSE)
      t4 == T!Add(t3, <<"N", "", "ゝ", "ヽ", "309D", "30FD">>, FALSE)
  IN T!Add(t4, <<"N", "", "ゞ", "ヾ", "309E", "30FE">>, FALSE)
CountOf(P(_)) == Cardinality({i \in 1..N0 : P(Table[i])})
Kind(x) == IF IsSmall(x) THEN "S" ELSE IF IsVoiced(x) THEN "D" ELSE IF IsSemiVoiced(x) THEN "H" ELSE "P"
Counts(mono) == [t \in {"S", "D", "H", "P"} |-> CountOf(LAMBDA x : Mono(x) = mono /\ Kind(x) = t)]
TotalOf(c) == c["S"] + c["D"] + c["H"] + c["P"]
CountText(c) == ToString(TotalOf(c)) \o " (Plain=" \o ToString(c["P"]) \o ", Dakuten=" \o ToString(c["D"]) \o ", HanDakuten=" \o ToString(c["H"]) \o
                (IF c["S"] > 0 THEN ", Small=" \o ToString(c["S"]) ELSE "") \o ")"
RECURSIVE SumVars(_)
SumVars(n) == IF n = 0 THEN 0 ELSE SumVars(n - 1) + Len(Table[n].var)
Pad(t, n) == Times(" ", n - Len(t)) \o t
NotesText == "\n- Column names use some abbreviations: 'Roma' = Rōmaji, 'Hira' = Hiragana,\n  'Kata' = Katakana, 'Uni' = Unicode, 'Hepb' = Hepburn, 'Kunr' = Kunrei\n" \o
  "- 'Roma' is mainly 'Modern Hepburn', but can be 'Nihon Shiki' or 'Wāpuro'\n- 'Hepb' and 'Kunr' are only populated when they would produce different output\n" \o
  "  - Values in () means 'output-only' since inputting leads to a different Kana\n- 'Roma Variants' are alternative key combinations that lead to the same Kana\n" \o
  "- When populated, 'Roma', 'Hira' and 'Kata' columns are unique (no duplicates)\n- Unicode values are only shown for 'monograph' (single-symbol) entries\n" \o
  "- Some 'digraphs' may not be in any 'official words', but are supported by IMEs\n- Chart output is sorted by Hiragana, so 'a, ka, sa, ta, na, ...' ordering\n" \o
  "- Katakana 'dakuten w' (ヷ, ヸ, ヹ, ヺ) aren't supported (no conversions exist)\n- Type values: P=Plain Kana, D=Dakuten (濁点), H=HanDakuten (半濁点), N=None\n" \o
  "- Type 'N' includes:\n  - Middle Dot/Interpunct (・): maps to Rōmaji '/' to match IME keyboard entry\n  - Prolong Mark (ー): convert to/from macrons (ā, ī, ū, ē, ō)\n" \o
  "  - Repeat symbols (ゝ, ゞ, ヽ, ヾ): only supported when 'target' is Rōmaji\n"
ChartText(md) ==
  LET m == Counts(TRUE)
      d == Counts(FALSE)
      label(t) == IF md THEN "- **" \o t \o ":** " ELSE Pad(t, 10) \o ": "
      num(n) == IF md THEN ToString(n) ELSE Pad(ToString(n), 3)
      P == m["P"] + m["S"] + d["P"] + d["S"]
      D == m["D"] + d["D"]
      H == m["H"] + d["H"]
      cnt(c) == num(TotalOf(c)) \o From(CountText(c), Len(ToString(TotalOf(c))) + 1)
  IN (IF md THEN "**Notes:**\n" ELSE ">>> Notes:") \o NotesText \o (IF md THEN "\n" ELSE "") \o (IF md THEN T!Markdown(Chart) ELSE T!Print(Chart)) \o
     "\n" \o (IF md THEN "**Totals:**\n" ELSE ">>> Totals:") \o "\n" \o
     label("Monographs") \o cnt(m) \o "\n" \o label("Digraphs") \o cnt(d) \o "\n" \o
     label("All Kana") \o num(TotalOf(m) + TotalOf(d)) \o " (Monographs=" \o ToString(TotalOf(m)) \o ", Digraphs=" \o ToString(TotalOf(d)) \o "), Rōmaji Variants=" \o ToString(SumVars(N0)) \o "\n" \o
     label("Types") \o num(P + D + H + 4) \o " (P=" \o ToString(P) \o ", D=" \o ToString(D) \o ", H=" \o ToString(H) \o ", N=4), N types aren't included in 'All Kana'\n"

\* ---- a run: [out, err]; filter: standard input is a pipe, so that no strings and no -i means to convert it line by line
Run(a, in, filter) ==
  LET p == Args(a, 1, DefaultZ, "", <<>>) IN
  CASE p.act = "fail" -> [out |-> "", err |-> p.err]
    [] p.act = "usage" -> [out |-> FullUsage, err |-> ""]
    [] p.act = "strings" -> [out |-> Joined(p.z, p.strings) \o (IF p.mode = "n" THEN "" ELSE "\n"), err |-> ""]
    [] p.act = "chart" -> [out |-> ChartText(p.mode = "m"), err |-> ""]
    [] p.act = "read" -> IF p.mode = "i" THEN LET q == Session(p.z, FALSE, in, 1) IN [out |-> Options(p.z) \o q.out, err |-> q.err]
                         ELSE IF ~filter THEN [out |-> "", err |-> "provide one or more 'strings' or '-i' for interactive mode"]
                         ELSE [out |-> Filtered(p.z, p.mode, in), err |-> ""]

\* ---- the same at a terminal: what is printed between waits for input, and how each wait reads (a line, echoed as the terminal is set; or one key, not echoed)
RECURSIVE Waits(_, _, _, _, _)
Waits(z, asking, in, i, echo) ==
  LET mode == IF asking THEN <<FALSE, FALSE>> ELSE <<TRUE, echo>> IN
  IF i > Len(in) THEN [out |-> <<"">>, waits |-> <<mode>>]
  ELSE LET a == Line(z, asking, in[i])
           shown == (IF asking THEN "\n" ELSE IF echo THEN in[i] \o "\n" ELSE "") \o a.out
       IN IF a.end THEN [out |-> <<shown>>, waits |-> <<mode>>]
          ELSE LET b == Waits(a.z, a.asking, in, i + 1, echo) IN [out |-> <<shown>> \o b.out, waits |-> <<mode>> \o b.waits]
AtTerminal(a, in, echo) ==
  LET p == Args(a, 1, DefaultZ, "", <<>>) IN
  IF p.act = "read" /\ p.mode = "i" THEN LET w == Waits(p.z, FALSE, in, 1, echo) IN [out |-> <<Options(p.z)>> \o w.out, waits |-> w.waits, err |-> "", code |-> 0, same |-> TRUE]
  ELSE LET x == Run(a, in, FALSE) IN [out |-> <<x.out>>, waits |-> <<>>, err |-> IF x.err = "" THEN "" ELSE x.err \o "\n", code |-> IF x.err = "" THEN 0 ELSE 1, same |-> TRUE]
=============================================================================
