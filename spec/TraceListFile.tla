---------------------------- MODULE TraceListFile ----------------------------
EXTENDS Integers, Sequences, TLC, IOUtils, Json
VARIABLES s, k, st
AsciiT == {"\t", "\n", " "}
T == INSTANCE Text
\* characters written <xx> stand for bytes that are no valid UTF-8
IsMB(c) == c \notin T!PrintableSet /\ c \notin AsciiT /\ ~T!StartsWith(c, "<")
L == INSTANCE ListFile WITH MB <- IsMB
SInit(i) == L!Fresh
SStep(z, e) ==
  IF z.dirty /\ e.op \in {"load", "big"} THEN [ok |-> TRUE, exp |-> 0, st |-> z]
  ELSE LET a == L!Apply(z, e) IN [ok |-> a.x = e.r, exp |-> a.x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
