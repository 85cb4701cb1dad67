--------------------------- MODULE TraceColumnFile ---------------------------
EXTENDS ColumnFile, IOUtils, Json
VARIABLES s, k, st
SInit(i) == Closed
SStep(z, e) == LET a == Apply(z, e) IN [ok |-> a.x = e.r, exp |-> a.x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
