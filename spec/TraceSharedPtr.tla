--------------------------- MODULE TraceSharedPtr ---------------------------
(* Accepts a recorded history of calls on real shared and weak pointers iff   *)
(* every call is a step NestlSharedPtr allows.                                *)
EXTENDS NestlSharedPtr, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Ev == Trace[l]
None(k) == [i \in 1..k |-> 0]
Init == l = 1 /\ st = [s |-> <<0>>, b |-> 0, w |-> <<0>>, nx |-> <<0>>, wk |-> <<0>>]

Fresh == /\ Ev.n = "fresh" /\ l' = l + 1
         /\ st' = [s |-> None(Ev.x[1]), b |-> 0, w |-> None(Ev.x[2]), nx |-> None(Ev.c), wk |-> None(Ev.c)]

\* -1: an observer which is expired; which block it holds cannot be seen
SeenOK(want, seen) == Len(want) = Len(seen) /\ \A i \in 1..Len(want) : IF seen[i] = -1 THEN want[i] <= 0 ELSE want[i] = seen[i]
OwnersOK(v) == v.s = Ev.os /\ v.b = Ev.ob /\ v.nx = Ev.onx /\ v.live = Ev.live /\ v.uc = Ev.uc
WatchOK(v) == SeenOK(v.w, Ev.ow) /\ SeenOK(v.wk, Ev.owk) /\ v.blk = Ev.blk

Call ==
    /\ Ev.n # "fresh"
    /\ Assert(Pre(st, Ev), <<"the harness made a call outside the preconditions", l>>)
    /\ Check(Ev.err = ErrOf(Ev.f), "error")
    /\ IF Ev.f = "none"
       THEN LET R == Results(st, Ev)
                A == { r \in R : OwnersOK(View(r.st)) }
                B == { r \in A : WatchOK(View(r.st)) }
                T == { r \in B : r.ret = Ev.ret }
            IN /\ Check(A # {}, "contents")
               /\ Check(B # {}, "weak")
               /\ Check(T # {}, "ret")
               /\ \E r \in T : st' = r.st
       ELSE LET v == View(st)
            IN /\ Check(MayFail(Ev) /\ OwnersOK(v) /\ WatchOK(v), "failstate")
               /\ UNCHANGED st
    /\ Check(Pure(Ev) => Ev.na = 0 /\ Ev.made = 0, "purity")
    /\ l' = l + 1

Next == l <= Len(Trace) /\ (Fresh \/ Call)
Spec == Init /\ [][Next]_vars

Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
