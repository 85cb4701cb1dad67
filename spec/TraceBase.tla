------------------------------ MODULE TraceBase ------------------------------
(* Trace validation skeleton. A trace file holds one recorded session of the   *)
(* real code per line: [init |-> ..., steps |-> <<event, ...>>]. The module    *)
(* that instantiates this one supplies the state machine of its subsystem:     *)
(*   StInit(init)     the specification state a session starts in              *)
(*   StStep(st, e)    [ok, exp, st]: whether the specification allows event e  *)
(*                    in state st, what it expected, and the successor state   *)
(* Every session is replayed step by step; a step the specification does not   *)
(* allow is printed as a MISMATCH (the driver turns it into a violation). A    *)
(* step in which the real code crashed or hung is allowed by no specification. *)
(* With StopAtMismatch a session ends at its first rejected step (sessions     *)
(* with state); otherwise the steps are independent and all are judged.        *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Sessions, StInit(_), StStep(_, _), StopAtMismatch
VARIABLES s, k, st

TInit == /\ s \in 1..Len(Sessions)
         /\ k = 0
         /\ st = StInit(Sessions[s].init)

TNext == /\ k < Len(Sessions[s].steps)
         /\ LET e == Sessions[s].steps[k + 1]
                r == IF "crash" \in DOMAIN e.r THEN [ok |-> FALSE, exp |-> "no crash", st |-> st] ELSE StStep(st, e)
            IN /\ IF r.ok THEN TRUE
                  ELSE PrintT("MISMATCH " \o ToJson([s |-> s, k |-> k + 1, exp |-> r.exp]))
               /\ st' = r.st
               /\ k' = IF ~r.ok /\ (StopAtMismatch \/ "crash" \in DOMAIN e.r) THEN Len(Sessions[s].steps) ELSE k + 1
         /\ s' = s

TSpec == TInit /\ [][TNext]_<<s, k, st>>
=============================================================================
