---------------------------- MODULE TraceAlgorithm ----------------------------
(* Accepts recorded calls of the real algorithms iff each is a step the       *)
(* contract NestlAlgorithm allows.                                            *)
EXTENDS NestlAlgorithm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>
Ev == Trace[l]
EvSt == [q |-> <<Ev.q1, Ev.q2>>]
Init == l = 1 /\ st = [q |-> << <<>>, <<>> >>]
Fresh == Ev.n = "fresh"
Call == /\ Ev.n # "fresh"
        /\ Check(Ev.err = ErrOf(Ev.f), "error")
        /\ LET R == IF Ev.f = "none" THEN Results(st, Ev) ELSE FailResults(st, Ev)
               Q == { r \in R : r.st = EvSt }
           IN /\ Check(Q # {}, IF Ev.f = "none" THEN "contents" ELSE "failstate")
              /\ Check(\E r \in Q : r.ret = Ev.ret, "ret")
Next == l <= Len(Trace) /\ (Fresh \/ Call) /\ l' = l + 1 /\ st' = EvSt
Spec == Init /\ [][Next]_vars
Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
