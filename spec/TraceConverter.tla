---------------------------- MODULE TraceConverter ---------------------------
EXTENDS Converter, IOUtils, Json
VARIABLES s, k, st
SInit(i) == [target |-> "Hiragana", flags |-> 0]
Show(z) == <<z.target, z.flags, FlagText(z.flags)>>
Step(z, e) ==
  CASE e.op = "new" -> LET w == [target |-> IF e.target = "" THEN "Hiragana" ELSE e.target, flags |-> IF e.flags < 0 THEN 0 ELSE e.flags] IN [st |-> w, x |-> Show(w)]
    [] e.op = "target" -> LET w == [z EXCEPT !.target = e.target] IN [st |-> w, x |-> Show(w)]
    [] e.op = "flags" -> LET w == [z EXCEPT !.flags = e.flags] IN [st |-> w, x |-> Show(w)]
    [] e.op = "convert" -> LET w == IF e.target = "" THEN z ELSE [target |-> e.target, flags |-> IF e.flags < 0 THEN 0 ELSE e.flags] IN
                             [st |-> w, x |-> <<Cat(Convert(e.src, e.cs, w.target, w.flags)), Show(w)>>]
SStep(z, e) == LET a == Step(z, e) IN [ok |-> "v" \in DOMAIN e.r /\ e.r.v = a.x, exp |-> a.x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
