---------------------------- MODULE TraceStorage ----------------------------
(* Accepts the memory events of a recorded history iff NestlStorage allows    *)
(* each of them.                                                              *)
EXTENDS NestlStorage, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h
vars == <<l, h>>
Ev == Trace[l]
Init == l = 1 /\ h = EmptyHeap
Right(w) == IF w = "" THEN TRUE ELSE PrintT("@@WHY " \o w) /\ FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE Ev.e = "quiet" -> Right(QuietWrong(h, Ev.q, Ev.tr)) /\ UNCHANGED h
             [] Ev.e = "end"   -> Right(Ended(h)) /\ UNCHANGED h
             [] OTHER          -> Right(Wrong(h, Ev)) /\ h' = After(h, Ev)
Spec == Init /\ [][Next]_vars

Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
