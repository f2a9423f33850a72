---------------------------- MODULE TraceAllocator ----------------------------
(* Accepts a recorded history of the default allocator iff every call is a    *)
(* step NestlAllocator allows, the blocks are aligned, apart from each other  *)
(* and inside what the heap gave, keep what was written to them, and the heap *)
(* has got back everything which is not held.                                 *)
EXTENDS NestlAllocator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, at                       \* at: slot -> <<first, end>> address pairs
vars == <<l, st, at>>
Hp == INSTANCE NestlHeap WITH Types <- {}, Counts <- {}, H <- 0, MaxTake <- 0,
        blk <- at, mem <- at, own <- at, want <- 0, told <- 0
Ev == Trace[l]
EvSt == [b |-> [c \in Slots |-> Ev.b[c]]]
Init == l = 1 /\ st = [b |-> [c \in Slots |-> Free]] /\ at = [c \in Slots |-> <<>>]
EndOf(e) == Hp!Plus(e.lo, e.x[2] * e.sz)
Placed(e) ==
    /\ Check(e.lo[2] % e.al = 0, "alignment")
    /\ Check(\A d \in SlotsIn(st) : at[d] = <<>> \/ Hp!Apart(e.lo, EndOf(e), at[d][1], at[d][2]), "overlap")
    /\ Check(e.blo = <<>> \/ (Hp!Leq(e.blo, e.lo) /\ Hp!Leq(EndOf(e), e.bhi)), "bounds")
Call ==
    /\ Check(Pre(st, Ev), "precondition")
    /\ LET Q == IF Ev.f = "none" THEN Results(st, Ev) ELSE FailResults(st, Ev)
       IN /\ Check(Q # {}, "error")
          /\ Check(\E r \in Q : r.err = Ev.err, IF Ev.err = "none" THEN "lost-error" ELSE IF Ev.f = "none" /\ Ev.n # "alloc_huge" THEN "spurious-error" ELSE "error-kind")
          /\ Check(\E r \in Q : r.st = EvSt, "contents")
          /\ Check(\E r \in Q : r.ret = Ev.ret, "ret")
    /\ IF Ev.n = "alloc" /\ Ev.err = "none" /\ Ev.lo # <<>> THEN Placed(Ev) ELSE TRUE
    /\ Check(Ev.n # "alloc" \/ Ev.err # "none" \/ Ev.lo # <<>> \/ Ev.x[2] = 0, "null")
    /\ Check(Ev.heap = -1 \/ Ev.heap = Cardinality({ c \in Slots : EvSt.b[c] # Free }) - Ev.empty, "leak")
    /\ at' = IF Ev.n = "alloc" /\ Ev.err = "none" THEN [at EXCEPT ![Ev.c] = IF Ev.lo = <<>> THEN <<>> ELSE <<Ev.lo, EndOf(Ev)>>]
             ELSE IF Ev.n = "dealloc" THEN [at EXCEPT ![Ev.c] = <<>>] ELSE at
Next == l <= Len(Trace) /\ Call /\ l' = l + 1 /\ st' = EvSt
Spec == Init /\ [][Next]_vars
Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
