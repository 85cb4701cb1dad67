----------------------------- MODULE TraceUcdDiff -----------------------------
EXTENDS UcdDiff, IOUtils, Json
VARIABLES s, k, st
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- UDApply, StopAtMismatch <- FALSE
=============================================================================
