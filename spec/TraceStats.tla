----------------------------- MODULE TraceStats ------------------------------
EXTENDS Stats, IOUtils, Json
VARIABLES s, k, st
SInit(i) == [D |-> <<>>, z |-> <<>>]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SApply, StopAtMismatch <- TRUE
=============================================================================
