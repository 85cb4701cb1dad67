----------------------------- MODULE TraceGroups ------------------------------
EXTENDS Groups, IOUtils, Json
VARIABLES s, k, st
SInit(i) == [D |-> <<>>, z |-> <<>>]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- GApply, StopAtMismatch <- TRUE
=============================================================================
