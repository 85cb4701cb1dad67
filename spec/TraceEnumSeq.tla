---------------------------- MODULE TraceEnumSeq -----------------------------
(* Sessions over one container (init.kind list/map), over the life cycle of    *)
(* registered lists (life) and stateless bitmask steps (mask).                 *)
EXTENDS EnumSeq, IOUtils, Json
VARIABLES s, k, st
NamesOf(n) == [i \in 1..n |-> "x" \o ToString(i)]
SInit(i) == IF i.kind = "life" THEN [kind |-> "life", cur |-> <<>>]
            ELSE IF i.kind = "mask" THEN [kind |-> "mask"]
            ELSE New(i.kind, i.n, i.none, NamesOf(IF i.none THEN i.n - 1 ELSE i.n))
\* life cycle: cur = names of the registered list (<<>>: none registered)
Dup(t) == \E i, j \in 1..Len(t) : i # j /\ t[i] = t[j]
\* names are inserted from the last to the first: the error names the first name, from the end, seen twice
RECURSIVE DupFrom(_, _)
DupFrom(t, i) == IF \E j \in (i + 1)..Len(t) : t[i] = t[j] THEN t[i] ELSE DupFrom(t, i - 1)
\* with None: position (from the end) at which None or a duplicate is met
RECURSIVE BadFrom(_, _, _)
BadFrom(t, i, none) == IF i = 0 THEN Val(0)
  ELSE IF none /\ t[i] = "None" THEN DomErr("'None' should not be specified")
  ELSE IF \E j \in (i + 1)..Len(t) : t[i] = t[j] THEN DomErr("duplicate name '" \o t[i] \o "'")
  ELSE BadFrom(t, i - 1, none)
Life(z, e) ==
  LET none == e.w = "n" IN
  CASE e.op = "created" -> [x |-> Val(z.cur # <<>>), st |-> z]
    [] e.op = "destroy" -> [x |-> Val(0), st |-> [z EXCEPT !.cur = <<>>]]
    [] e.op = "create" -> IF z.cur # <<>> THEN [x |-> DomErr("'create' should only be called once"), st |-> z]
                          ELSE LET b == BadFrom(e.t, Len(e.t), none) IN IF Fail(b) THEN [x |-> b, st |-> z] ELSE [x |-> b, st |-> [z EXCEPT !.cur = e.t]]
    [] e.op \in {"find", "str"} ->
         IF z.cur = <<>> THEN [x |-> DomErr("must call 'create' before calling 'instance'"), st |-> z]
         ELSE IF e.op = "find" THEN [x |-> IF \E i \in 1..Len(z.cur) : z.cur[i] = e.n THEN Val((CHOOSE i \in 1..Len(z.cur) : z.cur[i] = e.n) - 1)
                                           ELSE DomErr("name '" \o e.n \o "' not found"), st |-> z]
         ELSE [x |-> IF e.i < Len(z.cur) THEN Val(z.cur[e.i + 1]) ELSE IF none /\ e.i = Len(z.cur) THEN Val("None")
                     ELSE NoEnum(ToString(e.i)), st |-> z]
SStep(z, e) ==
  IF z.kind = "mask" THEN LET x == Val(MaskOps(e.x, e.y)) IN [ok |-> x = e.r, exp |-> x, st |-> z]
  ELSE IF z.kind = "life" THEN LET a == Life(z, e) IN [ok |-> a.x = e.r, exp |-> a.x, st |-> a.st]
  ELSE LET a == Apply(z, e)
           x == Val([x |-> a.x, pos |-> Positions(a.st)])
       IN [ok |-> x = e.r, exp |-> x, st |-> a.st]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- TRUE
=============================================================================
