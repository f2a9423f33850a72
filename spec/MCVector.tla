------------------------------- MODULE MCVector -------------------------------
(* Small-scope exploration of the vector contract: checks the contract's own  *)
(* invariants and emits, for every state, the outcome table which the         *)
(* conformance harness replays against the implementation.                    *)
EXTENDS NestlVector, Json

CONSTANTS Vals, MaxA, MaxB, Allocs, EmitTable

VARIABLE st

Contents1 == SeqsUpTo(Vals \cup {DefaultValue}, MaxA)
Contents2 == SeqsUpTo(Vals \cup {DefaultValue}, MaxB)
Srcs == { s \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>} : Range(s) \subseteq Vals }

O(n, c, x, s) == [n |-> n, c |-> c, x |-> x, s |-> s]

\* sequences equal or nearly equal to q: the interesting right-hand sides of a comparison
Near(q) == {q, Append(q, 1)} \cup (IF q = <<>> THEN {} ELSE {Take(q, Len(q) - 1), Drop(q, 1)})
           \cup { [q EXCEPT ![i] = v] : i \in 1..Len(q), v \in Vals }

SingleOps(c, q, max) ==
    LET P == 0..Len(q)
        I == 0..(Len(q) - 1)
        room == Len(q) < max
    IN    (IF room THEN { O(n, c, <<v>>, <<>>) : n \in AppendOps, v \in Vals } ELSE {})
     \cup (IF room THEN { O(n, c, <<i>>, <<>>) : n \in OwnAppend, i \in I } ELSE {})
     \cup (IF room THEN { O(n, c, <<i, v>>, <<>>) : n \in InsertOps, i \in P, v \in Vals } ELSE {})
     \cup (IF room THEN { O("insert_own", c, <<i, j>>, <<>>) : i \in P, j \in I } ELSE {})
     \cup { O(n, c, <<i>>, s) : n \in RangeIns, i \in P, s \in { w \in Srcs : Len(w) + Len(q) <= max } }
     \cup { O("resize", c, <<k>>, <<>>) : k \in 0..max }
     \cup { O("resize_v", c, <<k, v>>, <<>>) : k \in 0..max, v \in Vals }
     \cup { O("resize_own", c, <<k, j>>, <<>>) : k \in 0..max, j \in I }
     \cup { O("reserve", c, <<k>>, <<>>) : k \in {0, 1, max, max + 2} }
     \cup { O(n, c, <<>>, <<>>) : n \in {"shrink", "clear", "eq_self"} \cup SelfOps }
     \cup { O("assign_n", c, <<k, v>>, <<>>) : k \in 0..max, v \in Vals }
     \cup { O("assign_n_default", c, <<k>>, <<>>) : k \in 0..max }
     \cup { O("assign_own", c, <<k, j>>, <<>>) : k \in 0..max, j \in I }
     \cup { O(n, c, <<>>, s) : n \in AssignR, s \in { w \in Srcs : Len(w) <= max } }
     \cup { O("write", c, <<i, v>>, <<>>) : i \in I, v \in Vals }
     \cup { O("eq_seq", c, <<>>, s) : s \in Near(q) }

Fits(s) == Len(s.q[1]) <= MaxA /\ Len(s.q[2]) <= MaxB

Ops(s) ==
    { op \in SingleOps(1, s.q[1], MaxA)
             \cup { O(n, 2, <<v>>, <<>>) : n \in {"push_back"}, v \in IF Len(s.q[2]) < MaxB THEN Vals ELSE {} }
             \cup { O("resize", 2, <<k>>, <<>>) : k \in 0..MaxB }
             \cup { O("eq", 1, <<>>, <<>>) }
             \cup { O(n, c, <<>>, <<>>) : n \in PairOps, c \in {1, 2} } :
        \A r \in Results(s, op) : Fits(r.st) }

Faults == {"alloc", "elem"}

Outcomes(s, op) ==
    { [f |-> "none", st |-> r.st, ret |-> r.ret] : r \in Results(s, op) }
    \cup UNION { { [f |-> f, st |-> n, ret |-> <<"*">>] : n \in FailStates(s, op, f) } : f \in Faults }

InitAl == IF Allocs THEN { <<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 2>> } ELSE { <<1, 1>> }
Init == st \in [q : { << <<>>, <<>> >> }, al : InitAl]
Next == \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st

------------------------------------------------------------------------------
TypeOK == st.q[1] \in Contents1 /\ st.q[2] \in Contents2 /\ st.al \in InitAl
\* a failed operation never invents elements: everything left was there before or is part of the goal
NoInvention ==
    \A op \in Ops(st) : \A f \in Faults : \A n \in FailStates(st, op, f) :
        \A c \in {1, 2} : Range(n.q[c]) \subseteq (Range(st.q[1]) \cup Range(st.q[2]) \cup Range(Target(st, op)))
\* appending and reserving give the strong guarantee
StrongAppend ==
    \A op \in Ops(st) : op.n \in AppendOps \cup OwnAppend \cup {"reserve", "shrink"} =>
        \A f \in Faults : FailStates(st, op, f) = {st}
\* an operation that can succeed can be told apart from a failed one by its effect, or is idempotent
OneSuccess ==
    \A op \in Ops(st) : op.n \notin {"move_assign", "t_move_noexcept", "move_self", "t_copy_assign", "t_copy_noexcept"} => Cardinality(Results(st, op)) = 1
SwapInvolution ==
    \A r \in Results(st, O("swap", 1, <<>>, <<>>)) : \A r2 \in Results(r.st, O("swap", 1, <<>>, <<>>)) : r2.st = st

Emit ==
    EmitTable => PrintT("@@" \o ToJson([s |-> st, ops |-> { [o |-> op, r |-> Outcomes(st, op)] : op \in Ops(st) }]))
=============================================================================
