------------------------------ MODULE MCChoice -------------------------------
(* A prompt round by round over every set of choices from a small alphabet,    *)
(* quit option, default and input: the listing names exactly the choices, the  *)
(* answer is an offered choice, and every request ends.                        *)
EXTENDS Choice, Json
CONSTANTS Cset, MaxLines
VARIABLES z, req, w, todo, rounds, res, in0
vars == <<z, req, w, todo, rounds, res, in0>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE Insert(SeqOf(S \ {CHOOSE x \in S : TRUE}), CHOOSE x \in S : TRUE)
RECURSIVE LinesOf(_)
LinesOf(n) == IF n = 0 THEN {<<>>} ELSE LinesOf(n - 1) \cup {<<l>> \o t : l \in {<<>>, <<97>>, <<98>>, <<97, 98>>, <<200>>}, t \in LinesOf(n - 1)}
Sets == {SeqOf({[c |-> x, d |-> f[x]] : x \in S}) : S \in SUBSET Cset, f \in [Cset -> {"", "d"}]}
Ranges == {<<>>, <<97, 97>>, <<97, 98>>, <<98, 97>>, <<99, 100>>}
Init == /\ z \in [quit : {<<>>, <<98>>, <<47>>}, desc : {"quit", ""}, in : LinesOf(MaxLines)]
        /\ req \in [op : {"get"}, msg : {"m"}, useQuit : BOOLEAN, choices : Sets, def : {<<>>, <<97>>, <<47>>}, defs : {"?"}, range : Ranges]
        /\ w = Request(z, req) /\ todo = z.in /\ rounds = 0 /\ res = <<>> /\ in0 = z.in
Ended == res # <<>> \/ Fail(w)
Round == /\ ~Ended /\ rounds' = rounds + 1
         /\ LET a == IF todo = <<>> THEN req.def ELSE Answer(Head(todo), w.v, req.def) IN
            IF a # <<>> THEN res' = <<Val(a[1])>>
            ELSE IF todo = <<>> THEN res' = <<Err("end of input")>> ELSE res' = res
         /\ todo' = IF todo = <<>> THEN todo ELSE Tail(todo)
         /\ UNCHANGED <<z, req, w, in0>>
Spec == Init /\ [][Round]_vars /\ WF_vars(Round)
Terminates == <>Ended
\* characters an item of the listing stands for
Expand(t) == IF Len(t) >= 2 /\ Ch(t, 2) = "=" THEN {Ord(Ch(t, 1))} ELSE IF Len(t) = 1 THEN {Ord(t)} ELSE Ord(Ch(t, 1))..Ord(Ch(t, 3))
ListingOK == ~Fail(w) => /\ UNION {Expand(Items(w.v, 1)[i]) : i \in 1..Len(Items(w.v, 1))} = Cs(w.v)
                         /\ (req.useQuit /\ z.quit # <<>>) => z.quit[1] \in Cs(w.v)
                         /\ \A i, j \in 1..Len(w.v) : i < j => w.v[i].c < w.v[j].c
AnswerOK == (res # <<>> /\ ~Fail(res[1])) => res[1].v \in Cs(w.v)
\* the round by round machine and the specification used for traces agree
Agree == res # <<>> => LET g == Get(z, req) IN g.x.res = res[1] /\ g.x.out = Times(Prompt("m", w.v, req.def), rounds) /\ g.st.in = todo
RejectedEarly == Fail(w) => Get(z, req).x.out = "" /\ Get(z, req).st = z
=============================================================================
