-------------------------------- MODULE MCQuiz ---------------------------------
(* Every history of answers in a list quiz, a group quiz and their reviews,     *)
(* from every start: the position stays in range, no question is scored twice,  *)
(* each reading is given at most once, there is always an answer, quitting is   *)
(* possible at every question, answers that change the display change nothing   *)
(* else, editing changes one answer only, and correct is exactly: every name    *)
(* has a reading (and, with meanings shown, a meaning) equal to its own.        *)
EXTENDS Quiz, Json
CONSTANTS Total, Most
VARIABLES kind, review, n, first, p, hist
vars == <<kind, review, n, first, p, hist>>
\* names 1 and 3 have the same reading and different meanings
Names == <<"x", "y", "z", "w">>
Z == [recs |-> ("x" :> [reading |-> "a", meaning |-> "1"]) @@ ("y" :> [reading |-> "b", meaning |-> "1"]) @@ ("z" :> [reading |-> "a", meaning |-> "2"]) @@ ("w" :> [reading |-> "c", meaning |-> "1"])]
Members1 == SubSeq(Names, 1, n)
Right == 1
Done == p.over \/ p.pos >= Total
Full == kind = "group" /\ ~review /\ p.mode = "ask" /\ Len(p.answers) = n
Fits == FitCount(Z, Members1, Members1, p)
Cs(x) == IF kind = "list" THEN LCodes(x, review, n) ELSE GCodes(x, review, n)
After(x, a) == IF kind = "list" THEN LNext(x, a, Right) ELSE GNext([x EXCEPT !.fresh = FALSE], a)
Init == /\ kind \in {"list", "group"} /\ review \in BOOLEAN /\ n \in 2..Most /\ first \in 0..Total
        /\ \E show \in BOOLEAN : p = PStart(first, show)
        /\ hist = <<>>
Judge == Full /\ ~Done /\ p' = (IF Fits = n THEN Hit(p) ELSE Miss(p)) /\ hist' = hist
Give == ~Full /\ ~Done /\ \E a \in Cs(p) : p' = After(p, a) /\ hist' = Append(hist, a)
Next == (Judge \/ Give) /\ UNCHANGED <<kind, review, n, first>>
Spec == Init /\ [][Next]_vars
View == <<kind, review, n, first, [p EXCEPT !.visit = 0]>>
InRange == p.pos \in 0..Total /\ (review => p.ok = 0 /\ p.wrong = <<>> /\ p.answers = <<>>)
Scores == /\ \A i \in 1..Len(p.wrong) : p.wrong[i] \in (IF first = 0 THEN 1 ELSE first)..p.pos /\ (i > 1 => p.wrong[i - 1] < p.wrong[i])
          /\ p.ok + Len(p.wrong) <= p.pos - (IF first = 0 THEN 0 ELSE first - 1) \/ review
Answers == /\ Len(p.answers) <= n /\ Unique(p.answers) /\ SetOf(p.answers) \subseteq Letters(n) /\ Left(p, n) \cup SetOf(p.answers) = Letters(n)
           /\ (p.mode = "ask") = (p.entry = 0) \/ p.mode = "pick"
           /\ p.mode # "ask" => p.answers # <<>>
Open == Done \/ Full \/ (Cs(p) # {} /\ (p.mode = "ask" => Slash \in Cs(p) /\ Dot \in Cs(p) /\ Dash \in Cs(p)) /\ (Comma \in Cs(p)) = (review /\ p.mode = "ask" /\ p.pos > 0))
\* correct: names 1 and 3 may be exchanged when meanings are hidden, nothing else
Correct == Full => LET own == \A i \in 1..n : p.answers[i] = Letter(i)
                       swapped == n >= 3 /\ p.answers[1] = Letter(3) /\ p.answers[3] = Letter(1) /\ \A i \in (1..n) \ {1, 3} : p.answers[i] = Letter(i)
                   IN (Fits = n) = (own \/ (swapped /\ ~p.show))
Quiet(q) == [q EXCEPT !.show = FALSE, !.fresh = FALSE]
\* steps: what each answer may change
Typed == hist' # hist
Key == hist'[Len(hist')]
Steps == [][Typed => /\ (p.mode = "ask" /\ Key \in {Dash, Quote} => Quiet(p') = Quiet(p) /\ (p'.show # p.show) = (Key = Dash) /\ p'.fresh)
                     /\ (~review => p'.pos >= p.pos)
                     /\ p'.pos - p.pos \in {-1, 0, 1}
                     /\ (p'.over => Key = Slash /\ p'.pos = p.pos /\ p'.ok = p.ok /\ p'.wrong = p.wrong)
                     /\ (p.mode = "renew" => Len(p'.answers) = Len(p.answers) /\ \A i \in 1..Len(p.answers) : i # p.entry => p'.answers[i] = p.answers[i])
                     /\ (p.mode = "pick" => p'.answers = p.answers /\ p'.answers[p'.entry] = Key)
                     /\ (p'.pos # p.pos => p'.answers = <<>> /\ p'.mode = "ask" /\ p'.fresh /\ p'.show = p.show)]_vars
\* one history for each state, with the answers it can continue with
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Emit == Done \/ Full \/ PrintT("HIST " \o ToJson([kind |-> kind, review |-> review, n |-> n, first |-> first, show |-> (p.show # (Cardinality({i \in 1..Len(hist) : hist[i] = Dash}) % 2 = 1)), keys |-> hist,
                                                  codes |-> SetSeq(Cs(p))]))
=============================================================================
