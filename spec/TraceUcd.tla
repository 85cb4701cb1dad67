------------------------------ MODULE TraceUcd -------------------------------
EXTENDS Ucd, IOUtils, Json
VARIABLES s, k, st
SInit(i) == UFresh
SStep(z, e) == IF z.bad /\ e.op \notin {"new", "one"} THEN [ok |-> TRUE, exp |-> 0, st |-> z] ELSE UApply(z, e)
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
