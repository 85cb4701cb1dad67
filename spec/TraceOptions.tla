----------------------------- MODULE TraceOptions ------------------------------
EXTENDS Options, IOUtils, Json
VARIABLES s, k, st
SInit(i) == [dirs |-> <<>>, files |-> <<>>]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- OApply, StopAtMismatch <- TRUE
=============================================================================
