--------------------------- MODULE TraceUtf8Char ----------------------------
(* One iterator per session (init = its bytes); also the static functions.     *)
EXTENDS Utf8Char, IOUtils, TLC, Json
VARIABLES s, k, st
SInit(i) == [b |-> i, q |-> Start]
Counts(q) == <<q.err, q.var, q.comb>>
Rep(r, q) == [f |-> r.found, r |-> r.r, n |-> Counts(q)]
ValidName(b, one) == LET v == Validate(b, one) IN IF v \in {"Valid", "NotMultiByte"} THEN v ELSE "NotValid"
Exp(z, e) == CASE
     e.op = "next"  -> LET r == NextChar(z.b, z.q, e.mb) IN [x |-> Rep(r, r.st), q |-> r.st]
  [] e.op = "peek"  -> LET r == NextChar(z.b, z.q, e.mb) IN [x |-> Rep(r, z.q), q |-> z.q]
  [] e.op = "reset" -> [x |-> [f |-> FALSE, r |-> <<>>, n |-> <<0, 0, 0>>], q |-> Start]
  [] e.op = "info"  -> LET g == NextChar(z.b, Start, TRUE) IN
       [x |-> [size |-> <<Size(z.b, TRUE), Size(z.b, FALSE)>>, sel |-> IsSelAt(z.b, 1), mark |-> IsMarkAt(z.b, 1), has |-> HasSel(z.b), nosel |-> NoSel(z.b),
               first |-> g.r, valid |-> <<ValidName(z.b, TRUE), ValidName(z.b, FALSE)>>], q |-> z.q]
SStep(z, e) == LET w == Exp(z, e) IN [ok |-> [v |-> w.x] = e.r, exp |-> w.x, st |-> [z EXCEPT !.q = w.q]]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
