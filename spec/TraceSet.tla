------------------------------ MODULE TraceSet ------------------------------
(* Accepts a recorded history of calls on two real sets iff every call is a   *)
(* step the contract NestlSet allows.  The comparator of an empty set cannot  *)
(* be observed (recorded as -1): TLC then follows every possibility.          *)
EXTENDS NestlSet, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Ev == Trace[l]
DirOK(s) == \A c \in {1, 2} : Ev.dir[c] = -1 \/ Ev.dir[c] = s.dir[c]
OrgOK(want, e) == (want[1] = AnyOrg \/ want[1] = e.o1) /\ (want[2] = AnyOrg \/ want[2] = e.o2)
EvQ == <<Ev.q1, Ev.q2>>

Init == l = 1 /\ st = [q |-> << <<>>, <<>> >>, dir |-> <<0, 0>>, al |-> <<1, 1>>]

Fresh == /\ Ev.n = "fresh" /\ l' = l + 1
         /\ st' = [q |-> << <<>>, <<>> >>, dir |-> Ev.x, al |-> Ev.al]
\* measured lookups: how many distinct stored keys were compared
CostStep == /\ Ev.n = "cost"
            /\ Check(CostOK(Ev.size, Ev.vis, Ev.er = 1), "balance")
            /\ l' = l + 1 /\ UNCHANGED st
\* a fresh set driven through a history of the design model RbTree: insertions (k) and erasures (-k) of key 10*k
RECURSIVE Replayed(_)
Replayed(h) == IF h = <<>> THEN {}
               ELSE LET p == Replayed(Take(h, Len(h) - 1))  e == h[Len(h)] IN IF e > 0 THEN p \cup {10 * e} ELSE p \ {-10 * e}
Build == /\ Ev.n = "build" /\ l' = l + 1
         /\ Check(/\ Range(Ev.q1) = Replayed(Ev.x) /\ Ordered(0, Ev.q1)
                  /\ Range(Ev.q2) = Replayed(Ev.s) /\ Ordered(0, Ev.q2), "contents")
         /\ st' = [q |-> EvQ, dir |-> <<0, 0>>, al |-> <<1, 1>>]
Call ==
    /\ Ev.n \notin {"fresh", "cost", "build"}
    /\ Check(Ev.err = ErrOf(Ev.f), "error")
    /\ IF Ev.f = "none"
       THEN LET R == Results(st, Ev)
                Q == { r \in R : r.st.q = EvQ }
                D == { r \in Q : DirOK(r.st) }
                A == { r \in D : r.st.al = Ev.al }
                T == { r \in A : r.ret = Ev.ret }
                G == { r \in T : OrgOK(r.org, Ev) }
            IN /\ Check(Q # {}, "contents")
               /\ Check(D # {}, "contents")
               /\ Check(A # {}, "allocator")
               /\ Check(T # {}, "ret")
               /\ Check(G # {}, "address")
               /\ \E r \in G : st' = r.st
       ELSE LET new == [q |-> EvQ, al |-> Ev.al]
            IN /\ Check(FailOK(st, Ev, new, <<>>), "failstate")
               /\ Check(Ev.n \in {"copy", "copy_self"} \/ OrgOK(<<OrgOf(1, st.q[1]), OrgOf(2, st.q[2])>>, Ev), "address")
               /\ \E dc \in {st.dir[1], st.dir[2]} :
                     LET s == [q |-> EvQ, al |-> Ev.al, dir |-> IF Ev.n = "copy" THEN [st.dir EXCEPT ![Ev.c] = dc] ELSE st.dir]
                     IN /\ DirOK(s) /\ Ordered(s.dir[1], s.q[1]) /\ Ordered(s.dir[2], s.q[2])
                        /\ st' = s
    /\ Check(Pure(Ev) => Ev.na = 0 /\ Ev.made = 0, "purity")
    /\ IF Ev.vis >= 0 THEN Check(CostOK(Len(st.q[Ev.c]), Ev.vis, Ev.n \in {"erase_key", "erase_own"}), "balance") ELSE TRUE
    /\ l' = l + 1

Next == l <= Len(Trace) /\ (Fresh \/ CostStep \/ Build \/ Call)
Spec == Init /\ [][Next]_vars

Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
