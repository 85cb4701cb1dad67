------------------------------ MODULE TraceUtf8 ------------------------------
(* Recorded calls of the UTF-8 functions against Utf8.tla.                     *)
EXTENDS Utf8, IOUtils, TLC, Json
VARIABLES s, k, st
Ok(r, e) == LET x == [v |-> r] IN [ok |-> x = e.r, exp |-> x, st |-> 0]
SInit(i) == 0
Exact(e) == CASE
     e.op = "dec"  -> LET d == DecodeMax(e.b, e.n) IN LET q == [u |-> d, w |-> Decode(e.b), c |-> FirstCode(e.b)] IN <<q, q>>
  [] e.op = "enc"  -> LET d == Encode(e.c) IN [u |-> d, w |-> d]
  [] e.op = "encblk" -> [i \in 1..e.n |-> Encode1(e.c + i - 1)]
  [] e.op = "decblk" -> [i \in 1..e.n |-> LET c == e.c + i - 1 IN IF IsScalar(c) THEN c ELSE Replacement]
  [] e.op = "rt" -> LET d == Encode(Decode(e.b)) IN [u |-> d, w |-> d]
  [] e.op = "val"  -> LET v == Validate(e.b, FALSE)
                          o == Validate(e.b, TRUE)
                          N(x) == IF x = "NotMultiByte" THEN "Valid" ELSE x
                          M(x) == IF x \in {"NotMultiByte", "Valid"} THEN x ELSE "NotValid"
                          q == [m |-> <<M(v), M(o)>>, u |-> <<N(v), N(o)>>,
                          im |-> <<v = "Valid", o = "Valid">>, iu |-> <<N(v) = "Valid", N(o) = "Valid">>]
                      IN <<q, q>>
SStep(q, e) == Ok(Exact(e), e)
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
