--------------------------- MODULE TraceKanjiData ----------------------------
EXTENDS KanjiReport, IOUtils, Json
VARIABLES s, k, st
SInit(i) == KFresh
SStep(x, e) == IF e.op = "report" THEN RApply(x, e) ELSE IF x.z.fail # {} /\ e.op # "load" THEN [ok |-> TRUE, exp |-> 0, st |-> x] ELSE KApply(x, e)
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
