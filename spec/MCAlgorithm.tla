----------------------------- MODULE MCAlgorithm -----------------------------
(* All pairs of small ranges and all calls on them: checks that the contract  *)
(* has the laws the algorithms promise and emits the outcome table.           *)
EXTENDS NestlAlgorithm, Json
CONSTANTS Vals, MaxA, MaxB, Masks, EmitTable
VARIABLE st

O(n, x) == [n |-> n, c |-> 1, x |-> x, s |-> <<>>]
AllOps == { O(n, <<>>) : n \in CopyOps \cup {"copy_out"} \cup EqualOps \cup LexOps }
     \cup { O(n, <<m>>) : n \in CopyIfOps \cup {"copy_if_out"}, m \in Masks }
     \cup { O("copy_left", <<k>>) : k \in 0..MaxA }
     \cup { O(n, <<k>>) : n \in EqualPOps \cup LexPOps, k \in 0..3 }
Fits(s) == Len(s.q[1]) <= MaxA /\ Len(s.q[2]) <= MaxB
Ops(s) == { op \in AllOps : Pre(s, op) /\ \A r \in Results(s, op) : Fits(r.st) }
Outcomes(s, op) ==
    { [f |-> "none", st |-> r.st, ret |-> r.ret] : r \in Results(s, op) }
    \cup { [f |-> "elem", st |-> r.st, ret |-> r.ret] : r \in FailResults(s, op) }

Init == st \in [q : SeqsUpTo(Vals, MaxA) \X SeqsUpTo(Vals, MaxB)]
Next == \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st

a == st.q[1]
b == st.q[2]
TypeOK == Fits(st)
\* strict order, antisymmetric, total up to equivalence; a proper prefix is less
LexLaws ==
    \A k \in 0..3 :
        /\ ~LexLess(k, a, a)
        /\ ~(LexLess(k, a, b) /\ LexLess(k, b, a))
        /\ (a # b /\ IsPrefixOf(a, b)) => LexLess(k, a, b)
        /\ k < 2 => (LexLess(k, a, b) \/ LexLess(k, b, a) \/ a = b)
        /\ \A c \in SeqsUpTo(Vals, 2) : (LexLess(k, a, b) /\ LexLess(k, b, c)) => LexLess(k, a, c)
EqualLaws ==
    Len(a) <= Len(b) =>
        /\ AllEqual(0, a, b) <=> IsPrefixOf(a, b)
        /\ AllEqual(0, a, b) => AllEqual(2, a, b) /\ AllEqual(1, a, b)
\* writing touches only the positions written; the failing call leaves what the successful one would have written so far
FrameLaws ==
    \A op \in Ops(st) : op.n \in WriteOps \ OutOps =>
        /\ \A r \in Results(st, op) : Drop(r.st.q[Dest(op)], r.ret[1]) = Drop(st.q[Dest(op)], r.ret[1])
        /\ \A r \in FailResults(st, op) :
              /\ r.ret[1] < Len(Written(st, op))
              /\ Drop(r.st.q[Dest(op)], r.ret[1]) = Drop(st.q[Dest(op)], r.ret[1])
              /\ \A t \in Results(st, op) : Take(r.st.q[Dest(op)], r.ret[1]) = Take(t.st.q[Dest(op)], r.ret[1])
CopyIfLaws == \A m \in Masks : Range(Selected(a, m)) = { v \in Range(a) : Bit(m, v) }
Emit == EmitTable => PrintT("@@" \o ToJson([s |-> st, ops |-> { [o |-> op, r |-> Outcomes(st, op)] : op \in Ops(st) }]))
=============================================================================
