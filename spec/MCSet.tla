-------------------------------- MODULE MCSet --------------------------------
(* Small-scope exploration of the set contract, emission of outcome tables.   *)
EXTENDS NestlSet, Json

CONSTANTS Keys, MaxA, MaxB, Allocs, Dirs, EmitTable
VARIABLE st

O(n, c, x) == [n |-> n, c |-> c, x |-> x, s |-> <<>>]
I(s, c) == 0..(Len(s.q[c]) - 1)
AllOps(s) ==
         { O(n, 1, <<k>>) : n \in Inserts \cup {"erase_key"} \cup Finds, k \in Keys }
    \cup { O(n, 1, <<i>>) : n \in {"insert_own", "erase_own", "find_own", "erase_pos"}, i \in I(s, 1) }
    \cup { O(n, c, <<>>) : n \in {"clear", "copy", "copy_self", "move_assign", "move_self", "mctor"}, c \in {1, 2} }
    \cup { O(n, 2, <<k>>) : n \in {"insert", "erase_key", "find"}, k \in Keys }

Fits(s) == Len(s.q[1]) <= MaxA /\ Len(s.q[2]) <= MaxB
Ops(s) == { op \in AllOps(s) : \A r \in Results(s, op) : Fits(r.st) }

Faults == {"alloc", "elem"}
Outcomes(s, op) ==
    { [f |-> "none", st |-> r.st, ret |-> r.ret, org |-> r.org] : r \in Results(s, op) }
    \cup UNION { { [f |-> f, st |-> n.st, ret |-> <<"*">>, org |-> n.org] : n \in FailOuts(s, op, f) } : f \in Faults }

InitAl == IF Allocs THEN { <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 2>> } ELSE { <<1, 1>> }
Init == st \in [q : { << <<>>, <<>> >> }, dir : [1..2 -> Dirs], al : InitAl]
Next == \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st
------------------------------------------------------------------------------
TypeOK == Fits(st) /\ st.al \in InitAl /\ \A c \in {1, 2} : Range(st.q[c]) \subseteq Keys /\ st.dir[c] \in Dirs
\* one key per class, in comparator order
OrderOK == \A c \in {1, 2} : Ordered(st.dir[c], st.q[c])
\* an insertion adds exactly the key or finds an equivalent one; find agrees with it
LookupOK ==
    \A k \in Keys :
        /\ \A r \in Results(st, O("insert", 1, <<k>>)) :
              LET q == r.st.q[1]
              IN /\ Class(q[r.ret[1] + 1]) = Class(k)
                 /\ (r.ret[2] = 1) <=> (Len(q) = Len(st.q[1]) + 1)
                 /\ (r.ret[2] = 1) => q[r.ret[1] + 1] = k
                 /\ (r.ret[2] = 0) => q = st.q[1]
        /\ \A r \in Results(st, O("erase_key", 1, <<k>>)) : Where(r.st.q[1], k) = 0 /\ Len(r.st.q[1]) + r.ret[1] = Len(st.q[1])
AtomicInsert ==
    \A op \in Ops(st) : op.n \in Inserts => \A f \in Faults : \A o \in FailOuts(st, op, f) : o.st = st
\* nodes are neither lost nor duplicated
NodesOK ==
    \A op \in Ops(st) : \A r \in Results(st, op) :
        r.org[1] # AnyOrg /\ r.org[2] # AnyOrg =>
            LET all == r.org[1] \o r.org[2]
                old == { i \in 1..Len(all) : all[i] # 0 }
            IN (\A i, j \in old : i # j => all[i] # all[j]) /\ (Pure(op) => old = 1..Len(all))

Emit == EmitTable => PrintT("@@" \o ToJson([s |-> st, ops |-> { [o |-> op, p |-> Pure(op), r |-> Outcomes(st, op)] : op \in Ops(st) }]))
=============================================================================
