----------------------------- MODULE StatsThreads -----------------------------
(* The counts of one report run at the same time, one task per kind of         *)
(* character. A task reads the shared text (nothing writes it), keeps its       *)
(* counts to itself and hands its finished part over once; the parts are then   *)
(* printed in the order of the kinds, however the tasks were interleaved.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds,       \* number of tasks
          MaxLen       \* longest text
\* access: <<task, what (0: the text, c: the counts of task c), "r" or "w">>
VARIABLES text, pos, count, part, shown, access
vars == <<text, pos, count, part, shown, access>>
K == 1..Kinds
Main == 0
Texts == UNION {[1..n -> K] : n \in 0..MaxLen}
\* what a report must show: per kind, its number of characters
Of(t, c) == Cardinality({i \in 1..Len(t) : t[i] = c})
Expected(t) == [c \in K |-> <<c, Of(t, c)>>]
Init == /\ text \in Texts /\ pos = [c \in K |-> 1] /\ count = [c \in K |-> 0] /\ part = [c \in K |-> <<>>] /\ shown = <<>>
        /\ access = {}
\* one character read by task c
Read(c) == /\ part[c] = <<>> /\ pos[c] <= Len(text)
           /\ pos' = [pos EXCEPT ![c] = @ + 1]
           /\ count' = [count EXCEPT ![c] = IF text[pos[c]] = c THEN @ + 1 ELSE @]
           /\ access' = access \cup {<<c, 0, "r">>, <<c, c, "w">>}
           /\ UNCHANGED <<text, part, shown>>
\* task c is done: its part is handed over (the reader waits for it, so this orders everything before it)
Finish(c) == /\ part[c] = <<>> /\ pos[c] > Len(text) /\ part' = [part EXCEPT ![c] = <<c, count[c]>>]
             /\ UNCHANGED <<text, pos, count, shown, access>>
Emit == LET c == Len(shown) + 1 IN
        /\ c \in K /\ part[c] # <<>> /\ shown' = Append(shown, part[c]) /\ UNCHANGED <<text, pos, count, part, access>>
Next == Emit \/ \E c \in K : Read(c) \/ Finish(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* no two tasks touch the same thing when one of them writes it: what the race monitor observes on the real program
NoConflict == \A a, b \in access : a[1] # b[1] /\ a[2] = b[2] => a[3] = "r" /\ b[3] = "r"
\* every prefix shown is right, in the order of the kinds
Right == shown = SubSeq(Expected(text), 1, Len(shown))
Ends == <>(shown = Expected(text))
=============================================================================
