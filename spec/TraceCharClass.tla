--------------------------- MODULE TraceCharClass ---------------------------
EXTENDS CharClass, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
Exact(e) == CASE e.op = "cls" -> Report(e.b)
              [] e.op = "ranges" -> RangeReport(e.p)
              [] e.op = "blocks" -> AboutBlocks(e.p)
SStep(q, e) == IF e.op = "brange" THEN [ok |-> "v" \in DOMAIN e.r /\ RangePositions(e.p, e.r.v), exp |-> RangeChars(e.p), st |-> 0] ELSE
               LET x == [v |-> Exact(e)] IN [ok |-> x = e.r, exp |-> x, st |-> 0]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
