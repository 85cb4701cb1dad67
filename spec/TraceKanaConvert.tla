-------------------------- MODULE TraceKanaConvert ----------------------------
EXTENDS KanaConvert, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
Term(e) == LET x == AtTerminal(e.args, e.in, e.echo) IN
  [ok |-> "out" \in DOMAIN e.r /\ e.r.out = x.out /\ e.r.waits = x.waits /\ e.r.err = x.err /\ e.r.code = x.code /\ e.r.same, exp |-> x, st |-> 0]
SStep(z, e) == IF "echo" \in DOMAIN e THEN Term(e) ELSE LET x == Run(e.args, e.in, e.filter) IN [ok |-> "v" \in DOMAIN e.r /\ e.r.v.out = x.out /\ e.r.v.err = x.err, exp |-> x, st |-> 0]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
