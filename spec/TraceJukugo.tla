----------------------------- MODULE TraceJukugo ------------------------------
EXTENDS Jukugo, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- JApply, StopAtMismatch <- TRUE
=============================================================================
