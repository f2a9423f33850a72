------------------------------ MODULE TraceRuns ------------------------------
(* Accepts recorded histories of two very long vectors or lists.              *)
EXTENDS NestlRuns, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, cap
vars == <<l, st, cap>>

Ev == Trace[l]
StOf(e) == [q |-> <<e.q1, e.q2>>, al |-> e.al]
Init == l = 1 /\ st = [q |-> << <<>>, <<>> >>, al |-> <<1, 1>>] /\ cap = <<0, 0>>
Go == l' = l + 1 /\ st' = StOf(Ev) /\ cap' = Ev.cap

Start == Ev.n = "fresh" /\ Ev.q1 = <<>> /\ Ev.q2 = <<>> /\ Go
SameQ(r) == RSame(r.q[1], Ev.q1) /\ RSame(r.q[2], Ev.q2)
Call ==
    /\ Ev.n # "fresh"
    /\ Assert(RPre(st, Ev), "recorder broke a precondition")
    /\ Check(Ev.err = ErrOf(Ev.f), "error")
    /\ IF Ev.f = "none"
       THEN LET R == RResults(st, Ev)
                Q == { r \in R : SameQ(r) }
                A == { r \in Q : r.al = Ev.al }
            IN /\ Check(Q # {}, "contents")
               /\ Check(A # {}, "allocator")
               /\ Check(\E r \in A : r.ret = Ev.ret, "ret")
               /\ Check(\E r \in A : OrgOK(Ev, r, StOf(Ev).q), "address")
       ELSE /\ Check(RFailOK(st, Ev, Ev.f, StOf(Ev)), "failstate")
            /\ Check(RFailOrgOK(st, Ev, StOf(Ev).q), "address")
    /\ Check(RCapOK(st, Ev, Ev.f, StOf(Ev), cap, Ev.cap, Ev.na, Ev.made, Ev.moved), IF Kind = "list" THEN "purity" ELSE "capacity")
    /\ Go

Next == l <= Len(Trace) /\ (Start \/ Call)
Spec == Init /\ [][Next]_vars

Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
