----------------------------- MODULE TraceSymbol -----------------------------
EXTENDS Symbol, IOUtils, Json
VARIABLES s, k, st
SInit(i) == Empty
Names(e) == {e[f] : f \in {"a", "c"} \cap DOMAIN e}
SStep(z, e) == LET a == Apply(z, e) IN [ok |-> a.x = e.r /\ \A nm \in Names(e) : NameOK(nm), exp |-> a.x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
