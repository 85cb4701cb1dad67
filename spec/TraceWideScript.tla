---------------------------- MODULE TraceWideScript ---------------------------
EXTENDS WideScript, TLC, IOUtils, Json
VARIABLES s, k, st
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- WSApply, StopAtMismatch <- FALSE
=============================================================================
