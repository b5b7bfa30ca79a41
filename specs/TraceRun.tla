------------------------------ MODULE TraceRun ------------------------------
(* Validation of a recorded execution against a specification.              *)
(* Step(st, ev) evaluates one specification step: it yields [ok, st, why].  *)
(* Every scenario starts with an event "new"; after a rejected event the    *)
(* rest of that scenario is skipped so that one rejection cannot hide or    *)
(* cause others.                                                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Trace, Step(_, _), Blank
VARIABLES l, st, dead

N == Len(Trace)

RInit == l = 1 /\ st = Blank /\ dead = FALSE

Crash(ev) == ev.e \in {"hang", "crash"}

RNext ==
    /\ l <= N
    /\ l' = l + 1
    /\ LET ev == Trace[l] IN
       IF dead /\ ev.e # "new" THEN st' = st /\ dead' = TRUE
       ELSE LET r == IF Crash(ev) THEN [ok |-> FALSE, st |-> st, why |-> ev.e] ELSE Step(st, ev) IN
            IF r.ok THEN st' = r.st /\ dead' = FALSE
            ELSE /\ st' = Blank /\ dead' = TRUE
                 /\ PrintT("REJECT " \o ToString(l) \o " " \o ToString(ev.s) \o " " \o r.why)
    /\ (l = N => PrintT("ACCEPTED-UPTO " \o ToString(l)))
=============================================================================
