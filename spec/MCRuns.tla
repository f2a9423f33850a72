-------------------------------- MODULE MCRuns --------------------------------
(* The run representation is a refinement of the plain sequence contracts:     *)
(* for every small state and every operation, the outcomes NestlRuns gives,    *)
(* written out, are the outcomes of NestlVector / NestlList.                   *)
EXTENDS NestlRuns

CONSTANTS MaxN                                 \* longest run
V == INSTANCE NestlVector
L == INSTANCE NestlList
VARIABLE st

R1 == { <<a, n, d, 0>> : a \in {1, 2}, n \in 1..MaxN, d \in {0, 1} }
Runs == { <<>> } \cup { <<r>> : r \in R1 } \cup { <<r, s>> : r \in R1, s \in { <<1, 1, 0, 0>>, <<2, MaxN, 1, 0>> } }
Init == st \in [q : [1..2 -> Runs], al : { <<1, 1>>, <<1, 2>> }]
Next == UNCHANGED st
Spec == Init /\ [][Next]_st

O(n, c, x, s) == [n |-> n, c |-> c, x |-> x, sr |-> s, s |-> Expand(s)]
N1 == RLen(st.q[1])
N2 == RLen(st.q[2])
P == 0..N1
S == { <<>>, << <<1, 2, 1, 0>> >>, << <<2, 1, 0, 0>>, <<1, 1, 0, 0>> >> }
Common ==
    { O(n, 1, <<2>>, <<>>) : n \in AppendOps } \cup { O(n, 1, <<p, 2>>, <<>>) : n \in InsertOne, p \in P }
    \cup { O(n, 1, <<i>>, <<>>) : n \in {"push_own", "emplace_own"}, i \in 0..(N1 - 1) }
    \cup { O("insert_own", 1, <<p, i>>, <<>>) : p \in P, i \in 0..(N1 - 1) }
    \cup { O("write", 1, <<i, 2>>, <<>>) : i \in 0..(N1 - 1) }
    \cup { O(n, 1, <<p>>, s) : n \in RangeIns, p \in P, s \in S }
    \cup { O("assign_range", 1, <<>>, s) : s \in S } \cup { O("assign_n", 1, <<k, 2>>, <<>>) : k \in 0..2 }
    \cup { O("assign_own", 1, <<k, i>>, <<>>) : k \in 0..2, i \in 0..(N1 - 1) }
    \cup { O(n, 1, <<>>, <<>>) : n \in {"clear", "copy", "copy_self", "swap", "move_assign", "mctor", "eq", "eq_self"} }
VOps == Common \cup { O("resize", 1, <<k>>, <<>>) : k \in 0..4 } \cup { O("resize_v", 1, <<k, 2>>, <<>>) : k \in 0..4 }
    \cup { O("resize_own", 1, <<k, i>>, <<>>) : k \in 0..4, i \in 0..(N1 - 1) } \cup { O(n, 1, <<4>>, <<>>) : n \in {"reserve", "shrink"} }
LOps == Common \cup { O("push_front", 1, <<2>>, <<>>) } \cup { O("insert_n", 1, <<p, k, 2>>, <<>>) : p \in P, k \in 0..2 }
    \cup { O("insert_n_own", 1, <<p, k, i>>, <<>>) : p \in P, k \in 0..2, i \in 0..(N1 - 1) }
    \cup { O(n, 1, <<p>>, <<>>) : n \in {"insert_range_other", "splice_all"}, p \in P }
    \cup { O("erase", 1, <<i>>, <<>>) : i \in 0..(N1 - 1) } \cup { O("erase_range", 1, <<i, j>>, <<>>) : i \in P, j \in P }
    \cup (IF N1 > 0 THEN { O(n, 1, <<>>, <<>>) : n \in {"pop_back", "pop_front"} } ELSE {})
    \cup { O("splice_one", 1, <<p, i>>, <<>>) : p \in P, i \in 0..(N2 - 1) } \cup { O("splice_range", 1, <<p, i, j>>, <<>>) : p \in P, i \in 0..N2, j \in 0..N2 }
    \cup { O("splice_self_one", 1, <<p, i>>, <<>>) : p \in P, i \in 0..(N1 - 1) } \cup { O("splice_self_range", 1, <<p, i, j>>, <<>>) : p \in P, i \in P, j \in P }
OK(op) == RPre(st, op) /\ (op.n \in {"erase_range"} => op.x[1] <= op.x[2]) /\ (op.n = "splice_range" => op.x[2] <= op.x[3])

Flat(s) == [q |-> <<Expand(s.q[1]), Expand(s.q[2])>>, al |-> s.al]
\* NestlList numbers identities from 10000*c, NestlRuns from OBase*c
Id(o) == IF o = 0 THEN 0 ELSE 10000 * (o \div OBase) + (o % OBase)
Ids(r) == [i \in 1..RLen(r) |-> Id(ExpandOrg(r)[i])]

RepOK == \A r \in {st.q[1], st.q[2]} : \A k \in 0..RLen(r) :
    /\ Expand(RTake(r, k)) = Take(Expand(r), k)
    /\ Expand(RDrop(r, k)) = Drop(Expand(r), k)
    /\ RLen(r) = Len(Expand(r))
    /\ k < RLen(r) => RAt(r, k) = Expand(r)[k + 1]
SameOK == /\ RSame(st.q[1], st.q[2]) <=> (Expand(st.q[1]) = Expand(st.q[2]))
          /\ RPrefix(st.q[1], st.q[2]) <=> IsPrefixOf(Expand(st.q[1]), Expand(st.q[2]))
VectorOK == Kind = "vector" =>
    \A op \in { o \in VOps : OK(o) } :
        /\ { [st |-> Flat(r), ret |-> r.ret] : r \in RResults(st, op) } = V!Results(Flat(st), op)
        /\ Pure(op) <=> ~V!MayFail(op)
        \* a failure contract at least as weak as NestlVector's (elements lost in the middle are only counted)
        /\ \A f \in {"alloc", "elem"} : \A s \in Runs :
             V!MayFail(op) /\ V!FailContent(Flat(st), op, f, Expand(s)) => RFailContent(st, op, f, s)
        /\ \A s \in Runs : V!MayFail(op) /\ RFailContent(st, op, "alloc", s) => V!FailContent(Flat(st), op, "alloc", Expand(s))
ListOK == Kind = "list" =>
    \A op \in { o \in LOps : OK(o) } :
        /\ { [st |-> Flat(r), ret |-> r.ret] : r \in RResults(st, op) } = { [st |-> r.st, ret |-> r.ret] : r \in L!Results(Flat(st), op) }
        /\ op.n \notin Assigns => { <<Ids(r.q[1]), Ids(r.q[2])>> : r \in RResults(st, op) } = { r.org : r \in L!Results(Flat(st), op) }
        /\ Pure(op) <=> L!Pure(op)
        /\ \A s \in Runs : LET new == [st EXCEPT !.q[1] = s] IN RFailOK(st, op, "elem", new) <=> L!FailOK(Flat(st), op, "elem", Flat(new))
=============================================================================
