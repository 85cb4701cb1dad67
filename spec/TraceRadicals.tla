---------------------------- MODULE TraceRadicals ----------------------------
EXTENDS Radicals, IOUtils, Json
VARIABLES s, k, st
SInit(i) == RFresh
\* what a failed load leaves behind is not specified
SStep(z, e) == IF z.bad /\ e.op # "new" THEN [ok |-> TRUE, exp |-> 0, st |-> z]
               ELSE LET a == RApply(z, e) IN [ok |-> a.x = e.r, exp |-> a.x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
