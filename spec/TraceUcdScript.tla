---------------------------- MODULE TraceUcdScript ----------------------------
EXTENDS UcdScript, IOUtils, Json
VARIABLES s, k, st
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- USApply, StopAtMismatch <- TRUE
=============================================================================
