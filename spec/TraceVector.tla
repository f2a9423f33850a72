----------------------------- MODULE TraceVector -----------------------------
(* Accepts a recorded history of calls on two real vectors iff every call is  *)
(* a step the contract (NestlVector, NestlVectorCap) allows.                  *)
EXTENDS NestlVectorCap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, cap
vars == <<l, st, cap>>

Ev == Trace[l]
StOf(e) == [q |-> <<e.q1, e.q2>>, al |-> e.al]

Init == l = 1 /\ st = [q |-> << <<>>, <<>> >>, al |-> <<1, 1>>] /\ cap = <<0, 0>>

Go == l' = l + 1 /\ st' = StOf(Ev) /\ cap' = Ev.cap

\* the recorder starts with fresh vectors
Fresh == Ev.n = "fresh" /\ Ev.q1 = <<>> /\ Ev.q2 = <<>> /\ Ev.cap = <<0, 0>> /\ Go
Grow == Ev.n = "grow" /\ Check(GrowthOK(Ev.s), "growth") /\ Check(StOf(Ev) = st, "contents") /\ Go
Huge == Ev.n \in HugeOps /\ Check(HugeOK(st, Ev, Ev.err, StOf(Ev), cap, Ev.cap), "huge") /\ Go
Call ==
    /\ Ev.n \notin {"fresh", "grow"} \cup HugeOps
    /\ Check(Ev.err = ErrOf(Ev.f), "error")
    /\ IF Ev.f = "none"
       THEN /\ Check(\E r \in Results(st, Ev) : r.st.q = StOf(Ev).q, "contents")
            /\ LET R == { r \in Results(st, Ev) : r.st = StOf(Ev) }
               IN Check(R # {}, "allocator") /\ Check(\E r \in R : r.ret = Ev.ret, "ret")
       ELSE Check(FailOK(st, Ev, Ev.f, StOf(Ev)), "failstate")
    /\ Check(CapOK(st, Ev, Ev.f, StOf(Ev), cap, Ev.cap, Ev.na, Ev.moved), "capacity")
    /\ Go

Next == l <= Len(Trace) /\ (Fresh \/ Grow \/ Huge \/ Call)
Spec == Init /\ [][Next]_vars

Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
