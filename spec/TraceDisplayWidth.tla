------------------------- MODULE TraceDisplayWidth --------------------------
EXTENDS DisplayWidth, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
Exact(e) == CASE e.op = "ranges" -> WidthRanges
              [] e.op = "width" -> LET t == TextWidth(e.b) IN [d |-> <<t, t, t>>, w |-> e.n + Len(e.b) - t]
SStep(q, e) == LET x == [v |-> Exact(e)] IN [ok |-> x = e.r, exp |-> x, st |-> 0]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
