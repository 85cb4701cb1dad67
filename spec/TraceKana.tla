------------------------------ MODULE TraceKana ------------------------------
EXTENDS Kana, IOUtils, Json
VARIABLES s, k, st
Types == <<"Hiragana", "Katakana", "Romaji">>
Ans(e) ==
  CASE e.op = "map" -> {<<t, Lookup(e.type, t).r>> : t \in Keys(e.type)}
    [] e.op = "facts" -> IF Known(e.type, e.t) THEN Facts(Lookup(e.type, e.t)) ELSE "none"
    [] e.op = "same" -> <<e.x = e.y, e.x = e.y, e.x = e.y, FALSE>>
    [] e.op = "mark" -> <<FindMark(e.t, FALSE), FindMark(e.t, TRUE)>>
    [] e.op = "iter" -> [i \in 1..3 |-> Iteration(Types[i], e.t)] \o [i \in 1..3 |-> Iteration(Types[i], e.t) = "plain"] \o [i \in 1..3 |-> Iteration(Types[i], e.t) = "accented"]
    [] e.op = "repeat" -> Repeated(e.mark, e.target, e.flags, e.prev)
    [] e.op = "special" -> <<"ltu", "n", "ゝ", "ヽ", "ゞ", "ヾ", "ー">>
SInit(i) == 0
SStep(z, e) == LET x == Ans(e) IN
  [ok |-> "v" \in DOMAIN e.r /\ (IF e.op = "map" THEN {e.r.v[i] : i \in 1..Len(e.r.v)} = x /\ Len(e.r.v) = Cardinality(x) ELSE e.r.v = x), exp |-> x, st |-> z]
Sess == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceBase WITH Sessions <- Sess, StInit <- SInit, StStep <- SStep, StopAtMismatch <- FALSE
=============================================================================
