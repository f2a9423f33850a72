------------------------------ MODULE TraceList ------------------------------
(* Accepts a recorded history of calls on two real lists iff every call is a  *)
(* step the contract NestlList allows, element identities included.           *)
EXTENDS NestlList, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
vars == <<l, st>>

Ev == Trace[l]
StOf(e) == [q |-> <<e.q1, e.q2>>, al |-> e.al]
OrgOK(want, e) == /\ want[1] = AnyOrg \/ want[1] = e.o1
                  /\ want[2] = AnyOrg \/ want[2] = e.o2

Init == l = 1 /\ st = [q |-> << <<>>, <<>> >>, al |-> <<1, 1>>]
Go == l' = l + 1 /\ st' = StOf(Ev)

Fresh == Ev.n = "fresh" /\ Ev.q1 = <<>> /\ Ev.q2 = <<>> /\ Go
\* one long list of Ev.x[1] elements: what was seen after each stage (size and iteration of a list, and how many
\* of its elements were out of place); the expected numbers only depend on the length
BulkStages == {"bulk_fill", "bulk_sort", "bulk_splice", "bulk_merge", "bulk_erase"}
BulkSeen(n, k) ==
    CASE n = "bulk_fill" -> <<k, k, 0>>
      [] n = "bulk_sort" -> <<k, k, 0>>
      [] n = "bulk_splice" -> <<0, 0, k, k, k - 10, 10, 10>>
      [] n = "bulk_merge" -> <<k \div 2, k - k \div 2, k, k, 0, 0, 0>>
      [] n = "bulk_erase" -> <<0, 0>>
Bulk == /\ Ev.n \in BulkStages
        /\ Check(Ev.ret = BulkSeen(Ev.n, Ev.x[1]), "contents")
        /\ l' = l + 1 /\ UNCHANGED st
Call ==
    /\ Ev.n \notin {"fresh"} \cup BulkStages
    /\ Assert(Pre(st, Ev), "recorder broke a precondition")
    /\ Check(Ev.err = ErrOf(Ev.f), "error")
    /\ IF Ev.f = "none"
       THEN LET R == Results(st, Ev)
                Q == { r \in R : r.st.q = StOf(Ev).q }
                A == { r \in Q : r.st.al = Ev.al }
            IN /\ Check(Q # {}, "contents")
               /\ Check(A # {}, "allocator")
               /\ Check(\E r \in A : r.ret = Ev.ret, "ret")
               /\ Check(\E r \in A : OrgOK(r.org, Ev), "address")
       ELSE LET R == { o \in FailOuts(st, Ev, Ev.f) : o.st = StOf(Ev) }
            IN /\ Check(R # {}, "failstate")
               /\ Check(\E o \in R : OrgOK(o.org, Ev), "address")
    /\ Check(Pure(Ev) => Ev.na = 0 /\ Ev.made = 0, "purity")
    /\ Go

Next == l <= Len(Trace) /\ (Fresh \/ Bulk \/ Call)
Spec == Init /\ [][Next]_vars

Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
