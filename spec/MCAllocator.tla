----------------------------- MODULE MCAllocator -----------------------------
(* All small states of the default allocator's contract and all calls on      *)
(* them; emits the outcome table.                                             *)
EXTENDS NestlAllocator, Json
CONSTANTS Types, Counts, Vias, Clients, ClientSizes, Huge, EmitTable
VARIABLE st
O(n, c, x) == [n |-> n, c |-> c, x |-> x, s |-> <<>>]
AllOps == { O("alloc", c, <<t, n, v>>) : c \in Slots, t \in Types, n \in Counts, v \in Vias }
     \cup { O("alloc_huge", c, <<t, k, v>>) : c \in Slots, t \in Types, k \in Huge, v \in Vias }
     \cup { O("dealloc", c, <<v>>) : c \in Slots, v \in Vias }
     \cup { O("rewrite", c, <<>>) : c \in Slots }
     \cup { O("client", 1, <<k, n>>) : k \in Clients, n \in ClientSizes }
Ops(s) == { op \in AllOps : Pre(s, op) }
Outcomes(s, op) ==
    { [f |-> "none", st |-> r.st, ret |-> r.ret, err |-> r.err] : r \in Results(s, op) }
    \cup { [f |-> "alloc", st |-> r.st, ret |-> r.ret, err |-> r.err] : r \in FailResults(s, op) }
Init == st = [b |-> [c \in Slots |-> Free]]
Next == \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st
TypeOK == \A c \in Slots : st.b[c] = Free \/ (st.b[c][1] \in Types /\ st.b[c][2] \in Counts)
FailureIsReported == \A op \in Ops(st) : \A r \in FailResults(st, op) : r.err = "bad_alloc" /\ r.st = st
OnlyOwnSlot ==
    \A op \in Ops(st) : \A r \in Results(st, op) \cup FailResults(st, op) :
        \A d \in Slots : (d # op.c \/ op.n = "client") => r.st.b[d] = st.b[d]
HugeNeverServed == \A op \in Ops(st) : op.n = "alloc_huge" => \A r \in Results(st, op) : r.err = "bad_alloc" /\ r.st = st
Emit == EmitTable => PrintT("@@" \o ToJson([s |-> st, ops |-> { [o |-> op, r |-> Outcomes(st, op), p |-> Pure(op)] : op \in Ops(st) }]))
=============================================================================
