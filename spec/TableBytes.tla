----------------------------- MODULE TableBytes -------------------------------
(* Tables whose texts are bytes of UTF-8                                       *)
EXTENDS DisplayWidth
T == INSTANCE Text
LitB(t) == [i \in 1..Len(t) |-> IF T!Ch(t, i) = "\n" THEN 10 ELSE T!Ord(T!Ch(t, i))]
RECURSIVE EscapedB(_)
EscapedB(b) == IF b = <<>> THEN b ELSE (IF b[1] = 124 THEN <<92, 124>> ELSE <<b[1]>>) \o EscapedB(Tail(b))
NumberB(n) == LitB(ToString(n))
Tb == INSTANCE Table WITH Lit <- LitB, Width <- TextWidth, Escaped <- EscapedB, Number <- NumberB
Apply(z, e) ==
  CASE e.op = "new" -> [x |-> <<>>, st |-> Tb!New(e.cells, e.flag)]
    [] e.op = "add" -> [x |-> <<>>, st |-> Tb!Add(z, e.cells, e.flag)]
    [] e.op = "print" -> [x |-> Tb!Print(z), st |-> z]
    [] e.op = "md" -> [x |-> Tb!Markdown(z), st |-> z]
=============================================================================
