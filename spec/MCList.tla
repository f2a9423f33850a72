-------------------------------- MODULE MCList --------------------------------
(* Small-scope exploration of the list contract and emission of its outcome   *)
(* tables.  Which = "all": every operation; "sort": sort and merge only.      *)
EXTENDS NestlList, Json

CONSTANTS Vals, MaxA, MaxB, Allocs, Which, EmitTable

VARIABLE st

O(n, c, x, s) == [n |-> n, c |-> c, x |-> x, s |-> s]
Srcs == { s \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>} : Range(s) \subseteq Vals }

\* sequences equal or nearly equal to q: the interesting right-hand sides of a comparison
Near(q) == {q, Append(q, 1)} \cup (IF q = <<>> THEN {} ELSE {Take(q, Len(q) - 1), Drop(q, 1)})
           \cup { [q EXCEPT ![i] = v] : i \in 1..Len(q), v \in Vals }

SingleOps(c, q, d, max) ==
    LET P == 0..Len(q)
        I == 0..(Len(q) - 1)
        D == 0..(Len(d) - 1)
        room == Len(q) < max
        V == IF room THEN Vals ELSE {}
        OI == IF room THEN I ELSE {}
    IN    { O(n, c, <<v>>, <<>>) : n \in PushBack \cup PushFront, v \in V }
     \cup { O(n, c, <<i>>, <<>>) : n \in {"push_own", "emplace_own", "push_front_own"}, i \in OI }
     \cup { O(n, c, <<i, v>>, <<>>) : n \in InsertOne, i \in P, v \in V }
     \cup { O("insert_own", c, <<i, j>>, <<>>) : i \in P, j \in OI }
     \cup { O("insert_n", c, <<i, k, v>>, <<>>) : i \in P, k \in 0..(max - Len(q)), v \in Vals }
     \cup { O("insert_n_own", c, <<i, k, j>>, <<>>) : i \in P, k \in 0..(max - Len(q)), j \in I }
     \cup { O(n, c, <<i>>, s) : n \in RangeIns, i \in P, s \in Srcs }
     \cup { O("insert_range_other", c, <<i>>, <<>>) : i \in P }
     \cup { O("erase", c, <<i>>, <<>>) : i \in I }
     \cup { O("erase_range", c, <<i, j>>, <<>>) : i \in P, j \in P }
     \cup { O(n, c, <<>>, <<>>) : n \in IF Len(q) > 0 THEN {"pop_back", "pop_front"} ELSE {} }
     \cup { O("assign_n", c, <<k, v>>, <<>>) : k \in 0..max, v \in Vals }
     \cup { O("assign_n_default", c, <<k>>, <<>>) : k \in 0..max }
     \cup { O("assign_own", c, <<k, j>>, <<>>) : k \in 0..max, j \in I }
     \cup { O(n, c, <<>>, s) : n \in AssignR, s \in Srcs }
     \cup { O("write", c, <<i, v>>, <<>>) : i \in I, v \in Vals }
     \cup { O("eq_seq", c, <<>>, s) : s \in Near(q) }
     \cup { O(n, c, <<>>, <<>>) : n \in {"clear", "copy", "copy_self", "swap", "swap_self", "move_assign", "move_self", "mctor", "eq_self",
                                         "t_copy_assign", "t_copy_assign_self", "t_copy_ctor", "sort", "sort_comp"} \cup Merges }
     \cup { O(n, c, <<i>>, <<>>) : n \in SpliceAll, i \in P }
     \cup { O(n, c, <<i, j>>, <<>>) : n \in SpliceOne, i \in P, j \in D }
     \cup { O(n, c, <<i, j, k>>, <<>>) : n \in SpliceRng, i \in P, j \in 0..Len(d), k \in 0..Len(d) }
     \cup { O("splice_self_one", c, <<i, j>>, <<>>) : i \in P, j \in I }
     \cup { O("splice_self_range", c, <<i, j, k>>, <<>>) : i \in P, j \in P, k \in P }

Bad(op) == (op.n = "erase_range" /\ op.x[1] > op.x[2]) \/ (op.n \in SpliceRng /\ op.x[2] > op.x[3])

AllOps(s) ==
    IF Which = "sort"
    THEN { O(n, 1, <<>>, <<>>) : n \in Sorts \cup Merges }
    ELSE SingleOps(1, s.q[1], s.q[2], MaxA)
         \cup { O("eq", 1, <<>>, <<>>) }
         \cup { O("push_back", 2, <<v>>, <<>>) : v \in Vals }
         \cup { O(n, 2, <<>>, <<>>) : n \in {"clear", "copy", "move_assign", "mctor", "t_copy_assign", "t_copy_ctor", "merge", "sort"} }
         \cup { O("splice_all", 2, <<i>>, <<>>) : i \in 0..Len(s.q[2]) }
         \cup { O("splice_one", 2, <<i, j>>, <<>>) : i \in 0..Len(s.q[2]), j \in 0..(Len(s.q[1]) - 1) }

Fits(s) == Len(s.q[1]) <= MaxA /\ Len(s.q[2]) <= MaxB

\* in the sort configuration results may exceed the bounds: states are only sources of operations there
Ops(s) == { op \in AllOps(s) : ~Bad(op) /\ Pre(s, op) /\ (Which = "sort" \/ \A r \in Results(s, op) : Fits(r.st)) }

Faults == {"alloc", "elem"}
Outcomes(s, op) ==
    { [f |-> "none", st |-> r.st, ret |-> r.ret, org |-> r.org] : r \in Results(s, op) }
    \cup UNION { { [f |-> f, st |-> n.st, ret |-> <<"*">>, org |-> n.org] : n \in FailOuts(s, op, f) } : f \in Faults }

InitAl == IF Allocs THEN { <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 2>> } ELSE { <<1, 1>> }
Init == st \in [q : { << <<>>, <<>> >> }, al : InitAl]
\* the sort configuration reaches every pair of contents by appending
Build == \E c \in {1, 2}, v \in Vals : LET n == [st EXCEPT !.q[c] = Append(@, v)] IN Fits(n) /\ st' = n
Next == IF Which = "sort" THEN Build ELSE \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st
------------------------------------------------------------------------------
TypeOK == Fits(st) /\ st.al \in InitAl /\ \A c \in {1, 2} : Range(st.q[c]) \subseteq Vals \cup {DefaultValue}

Count(q, v) == Cardinality({ i \in 1..Len(q) : q[i] = v })
\* sort: a permutation (of nodes), sorted, stable; merge: everything ends up in the target
SortOK ==
    \A op \in { o \in Ops(st) : o.n \in Sorts \cup Merges } : \A r \in Results(st, op) :
        LET q == r.st.q[op.c]  g == r.org[op.c]
        IN /\ IsSorted(op, q)
           /\ Cardinality(Range(g)) = Len(g)
           /\ op.n \in Merges => r.st.q[Other(op.c)] = <<>> /\ Len(q) = Len(st.q[1]) + Len(st.q[2])
           /\ op.n \in Sorts => Len(q) = Len(st.q[op.c])
           /\ \A i, j \in 1..Len(q) : i < j /\ ~Less(op, q[i], q[j]) /\ ~Less(op, q[j], q[i]) =>
                \/ g[i] < g[j]
                \/ g[i] \div 10000 = op.c /\ g[j] \div 10000 # op.c
\* no node is duplicated or lost: pure operations permute the nodes or drop the erased ones
NodesOK ==
    \A op \in Ops(st) : \A r \in Results(st, op) :
        r.org[1] # AnyOrg /\ r.org[2] # AnyOrg =>
            LET all == r.org[1] \o r.org[2]
                old == { i \in 1..Len(all) : all[i] # 0 }
            IN /\ \A i, j \in old : i # j => all[i] # all[j]
               /\ Pure(op) => old = 1..Len(all)
               /\ op.n \in Sorts \cup Merges \cup Splices \cup {"swap", "mctor"} =>
                     Len(all) = Len(st.q[1]) + Len(st.q[2]) - (IF op.n = "mctor" THEN Len(st.q[Other(op.c)]) ELSE 0)
AtomicInsert ==
    \A op \in Ops(st) : op.n \in PushBack \cup PushFront \cup InsertOne => \A f \in Faults : \A o \in FailOuts(st, op, f) : o.st = st

Emit == EmitTable => PrintT("@@" \o ToJson([s |-> st, ops |-> { [o |-> op, p |-> Pure(op), r |-> Outcomes(st, op)] : op \in Ops(st) }]))
=============================================================================
