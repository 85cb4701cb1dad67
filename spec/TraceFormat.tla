----------------------------- MODULE TraceFormat -------------------------------
EXTENDS Format, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
Bytes(x) == [out |-> x, err |-> <<>>]
\* op run: a file with these lines; op bad: what fails
SStep(z, e) == LET x == IF e.op = "run" THEN Bytes(Formatted(e.lines)) ELSE [out |-> <<>>, err |-> e.msg] IN
               [ok |-> "v" \in DOMAIN e.r /\ e.r.v.out = x.out /\ e.r.v.err = x.err, exp |-> x, st |-> 0]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
