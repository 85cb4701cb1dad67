------------------------------ MODULE WideScript ------------------------------
(* scripts/parseEastAsianWidth.sh, the program that derives the blocks of wide   *)
(* characters (kt_kana/DisplaySize.h) from EastAsianWidth.txt: read line by line *)
(* (ascending ranges lo..hi with a width), a run of adjacent wide ranges is kept *)
(* until a gap shows up, then it becomes a block.                                *)
(* A line: [lo, hi, w]; w = "" for a comment or an empty line.                   *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt
Wide == {"W", "F"}
Start == [run |-> <<>>, blocks |-> <<>>]
Flush(z) == IF z.run = <<>> THEN z ELSE [run |-> <<>>, blocks |-> Append(z.blocks, z.run)]
ReadLine(z, l) ==
  IF l.w \notin Wide THEN z
  ELSE IF z.run # <<>> /\ l.lo = z.run[2] + 1 THEN [z EXCEPT !.run[2] = l.hi]
  ELSE [Flush(z) EXCEPT !.run = <<l.lo, l.hi>>]
Blocks(lines) == Flush(FoldLeft(ReadLine, Start, lines)).blocks
SInit(i) == 0
WSApply(z, e) ==
  LET exp == IF e.op = "none" THEN [rc |-> 1, msg |-> "please specify 'EastAsiaWidth.txt' file to parse", blocks |-> <<>>]
             ELSE [rc |-> 0, msg |-> "", blocks |-> Blocks(e.lines)]
  IN [ok |-> e.r = [v |-> exp], exp |-> exp, st |-> z]
===============================================================================
