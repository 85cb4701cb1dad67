------------------------------ MODULE TraceQuiz -------------------------------
EXTENDS Quiz, IOUtils, Json
VARIABLES s, k, st
SInit(i) == QFresh
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- QApply, StopAtMismatch <- TRUE
=============================================================================
