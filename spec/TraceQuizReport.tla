--------------------------- MODULE TraceQuizReport ----------------------------
EXTENDS QuizReport, IOUtils, Json
VARIABLES s, k, st
SInit(i) == [D |-> <<>>, z |-> <<>>, opt |-> ""]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- QRApply, StopAtMismatch <- TRUE
=============================================================================
