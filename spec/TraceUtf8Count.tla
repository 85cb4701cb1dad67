--------------------------- MODULE TraceUtf8Count ----------------------------
EXTENDS Utf8Count, IOUtils, Json
VARIABLES s, k, st
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- CFresh, StStep <- CApply, StopAtMismatch <- TRUE
=============================================================================
