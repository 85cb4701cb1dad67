------------------------------- MODULE Options --------------------------------
(* The options that both programs using kanji data take anywhere among their   *)
(* arguments (-data DIR, -debug, -info) and where the data is found. A tree is *)
(* [dirs: sequence of [p: path, txt: number of '.txt' entries], files: paths]; *)
(* a path is a sequence of names below the root "@"; cwd is a path.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
T == INSTANCE Text
Expected == 10
MaxArgs == 65535
N2(n) == ToString(n)
Val(v) == [v |-> v]
SubOf(q, n) == SubSeq(q, 1, n)
Up(p) == SubSeq(p, 1, Len(p) - 1)
IsDir(t, p) == \E i \in 1..Len(t.dirs) : t.dirs[i].p = p
Valid(t, p) == \E i \in 1..Len(t.dirs) : t.dirs[i].p = p /\ t.dirs[i].txt = Expected
\* text to a path: names, "." and ".." from cwd, or from the root after "@"
RECURSIVE Walk(_, _)
Walk(p, q) == IF q = <<>> THEN p ELSE Walk(CASE Head(q) \in {"", "."} -> p [] Head(q) = ".." -> Up(p) [] OTHER -> Append(p, Head(q)), Tail(q))
Resolve(cwd, x) == LET q == T!Split(x, "/") IN IF q[1] = "@" THEN Walk(<<>>, Tail(q)) ELSE Walk(cwd, q)
Shown(p) == T!Join(<<"@">> \o p, "/")
\* the nearest data directory in p or above it: <<>> or a sequence with it
RECURSIVE Above(_, _)
Above(t, p) == IF Valid(t, Append(p, "data")) THEN <<Append(p, "data")>> ELSE IF p = <<>> THEN <<>> ELSE Above(t, Up(p))

\* args: all arguments, the program itself first
Files == N2(Expected) \o " expected '.txt' files"
Fail(m) == [E |-> "DomainError", m |-> m]
DataAt(args) == {i \in 2..Len(args) : args[i] = "-data"}
Program(t, cwd, x) == LET q == T!Split(x, "/") IN IF Len(q) = 1 THEN <<>> ELSE <<Resolve(cwd, T!Join(SubOf(q, Len(q) - 1), "/"))>>
DataDir(t, cwd, args) ==
  IF DataAt(args) # {}
  THEN LET i == CHOOSE i \in DataAt(args) : \A j \in DataAt(args) : i <= j IN
       IF i = Len(args) THEN Fail("'-data' must be followed by a directory name")
       ELSE LET p == Resolve(cwd, args[i + 1]) IN
            IF args[i + 1] = "" \/ ~IsDir(t, p) THEN Fail("'" \o args[i + 1] \o "' is not a valid directory")
            ELSE IF ~Valid(t, p) THEN Fail("'" \o args[i + 1] \o "' does not contain " \o Files)
            ELSE Val(Shown(p))
  ELSE LET here == Above(t, cwd)
           dir == IF args = <<>> THEN <<>> ELSE Program(t, cwd, args[1])
           has == dir # <<>> /\ IsDir(t, dir[1])
           there == IF has THEN Above(t, IF dir[1] = <<>> THEN <<>> ELSE Up(dir[1])) ELSE <<>>
       IN IF here # <<>> THEN Val(Shown(here[1]))
          ELSE IF there # <<>> THEN Val(Shown(there[1]))
          ELSE Fail("couldn't find 'data' directory with " \o Files \o ":\n- searched up from current: " \o Shown(cwd)
                    \o (IF has THEN "\n- searched up from arg0: " \o args[1] ELSE "") \o "\nrun in a directory where 'data' can be found or use '-data <dir>'")
IsMode(x) == x \in {"-debug", "-info"}
Mode(args) == LET S == {i \in 2..Len(args) : IsMode(args[i])} IN
  IF Cardinality(S) > 1 THEN Fail("can only specify one '-debug' or '-info' option")
  ELSE IF S = {} THEN Val("none") ELSE Val(args[CHOOSE i \in S : TRUE])
\* the index of the argument after 'current' (both counted from 0) that is the program's own
RECURSIVE NextOwn(_, _)
NextOwn(args, i) == IF i >= Len(args) THEN i ELSE IF args[i + 1] = "-data" THEN NextOwn(args, i + 2) ELSE IF IsMode(args[i + 1]) THEN NextOwn(args, i + 1) ELSE i
Next1(args, current) ==
  IF current > Len(args) THEN Fail("current arg '" \o N2(current) \o "' is greater than args size '" \o N2(Len(args)) \o "'")
  ELSE IF args = <<>> THEN Val(current) ELSE Val(NextOwn(args, current + 1))
RECURSIVE Own(_, _)
Own(args, i) == LET n == Next1(args, i).v IN IF n >= Len(args) THEN <<>> ELSE <<n>> \o Own(args, n)

\* ---- the argument list itself: argc is text (any number), given: a list was given
Num(t) == IF T!StartsWith(t, "-") THEN -T!NumOf(T!From(t, 2)) ELSE T!NumOf(t)
RangeFail(m) == [E |-> "RangeError", m |-> m]
ArgsNew(argc, given, int) ==
  IF int /\ T!StartsWith(argc, "-") THEN RangeFail("argc " \o argc \o " is less than 0")
  ELSE IF int /\ T!NumLess(N2(MaxArgs), argc) THEN RangeFail("argc " \o argc \o " is greater than " \o N2(MaxArgs))
  ELSE IF argc = "0" /\ given THEN Fail("argc is 0, but argv is not null")
  ELSE IF argc # "0" /\ ~given THEN Fail("argc is " \o argc \o ", but argv is null")
  ELSE Val(argc)
ArgAt(args, i) == IF i >= Len(args) THEN RangeFail("index " \o N2(i) \o " must be less than argc " \o N2(Len(args))) ELSE Val(args[i + 1])

OApply(st, e) ==
  LET is(x) == [ok |-> e.r = x, exp |-> x, st |-> st] IN
  CASE e.op = "tree" -> [ok |-> e.r = Val("made"), exp |-> "made", st |-> [dirs |-> e.dirs, files |-> e.files]]
    [] e.op = "dir" -> is(DataDir(st, e.cwd, e.args))
    [] e.op = "mode" -> is(Mode(e.args))
    [] e.op = "own" -> is(Val(Own(e.args, 0)))
    [] e.op = "next" -> LET x == Next1(e.args, e.i) IN
         [ok |-> IF "v" \in DOMAIN x /\ x.v >= Len(e.args) THEN "v" \in DOMAIN e.r /\ e.r.v >= Len(e.args) ELSE e.r = x, exp |-> x, st |-> st]
    [] e.op = "new" -> is(ArgsNew(e.argc, e.given, e.int))
    [] e.op = "at" -> is(ArgAt(e.args, e.i))
=============================================================================
