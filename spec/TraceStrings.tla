---------------------------- MODULE TraceStrings -----------------------------
EXTENDS Strings, IOUtils, Json
VARIABLES s, k, st
SInit(i) == 0
V(x) == [v |-> x]
Exact(e) == CASE
     e.op = "num" -> V([b |-> Brackets(e.br, Binary(e.bits, e.n)), h |-> Brackets(e.br, Hex(e.bits, FALSE, e.n)), hu |-> Brackets(e.br, Hex(e.bits, TRUE, e.n))])
  [] e.op = "uni" -> V([s |-> Brackets(e.br, UnicodeAll(Decode(e.b)))])
  [] e.op = "unic" -> V([c |-> Brackets(e.br, UnicodeAll(e.c)), f |-> IF e.c = <<>> THEN <<>> ELSE Brackets(e.br, UnicodeOne(e.c[1]))])
  [] e.op = "str" -> LET q == Singles(e.b) IN
       V([lo |-> Lower(e.b), up |-> Upper(e.b), fl |-> FirstLower(e.b), fu |-> FirstUpper(e.b), sb |-> <<q.one, q.first, q.all, q.any>>,
          br |-> Brackets(e.br, e.b), z |-> Zeroes(e.b, e.n)])
  [] e.op = "sc" -> LET q == Singles(e.c) IN V([sb |-> <<q.one, q.first, q.all, q.any>>, z |-> Zeroes(e.c, e.n)])
  [] e.op = "char" -> IF e.type = "int" THEN ToCharInt(e.x, e.xs, e.neg) ELSE IF e.type = "uint8_t" THEN V(SignedChar(e.x)) ELSE ToCharUnsigned(e.type, e.x, e.xs)
  [] e.op = "uchar" -> V([u |-> e.x, single |-> e.x < 128])
SStep(q, e) == LET x == Exact(e) IN [ok |-> x = e.r, exp |-> x, st |-> 0]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
