-------------------------- MODULE TraceKanjiNumbers --------------------------
EXTENDS KanjiNumbers, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
SStep(z, e) == LET x == Eval(e) IN [ok |-> x = e.r, exp |-> x, st |-> 0]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
