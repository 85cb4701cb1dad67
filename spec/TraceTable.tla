----------------------------- MODULE TraceTable -------------------------------
EXTENDS TableBytes, IOUtils, Json
VARIABLES s, k, st
SInit(i) == Tb!New(<<>>, FALSE)
SStep(z, e) == LET a == Apply(z, e) IN [ok |-> "v" \in DOMAIN e.r /\ e.r.v = a.x, exp |-> a.x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
