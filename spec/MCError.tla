------------------------------- MODULE MCError -------------------------------
(* All histories of a few error objects; emits the outcome table.             *)
EXTENDS NestlError, Json
CONSTANTS Slots, Kinds, EmitTable
VARIABLE st

O(n, c, x) == [n |-> n, c |-> c, x |-> x, s |-> <<>>]
AllOps == { O(n, c, <<>>) : n \in NullOps \cup BuildOps \cup AskOps, c \in 1..Slots }
     \cup { O(n, c, <<k>>) : n \in KindOps, c \in 1..Slots, k \in Kinds }
     \cup { O(n, c, <<d>>) : n \in SlotOps \cup MoveOps, c \in 1..Slots, d \in 1..Slots }
Ops(s) == { op \in AllOps : Pre(s, op) }
Outcomes(s, op) == { [f |-> "none", st |-> r.st, ret |-> r.ret] : r \in Results(s, op) }

Init == st = [e |-> [i \in 1..Slots |-> 0]]
Next == \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st

TypeOK == \A i \in 1..Slots : st.e[i] \in {0, 1, 2} \cup Kinds
\* nothing but the object addressed (and a moved-from one) changes
Frame ==
    \A op \in Ops(st) : \A r \in Results(st, op) : \A i \in 1..Slots :
        r.st.e[i] # st.e[i] => i = op.c \/ (op.n \in MoveOps /\ i = op.x[1] /\ r.st.e[i] = 0)
\* a failure never turns into another one: it is the one reported, or one that was held
NoInvention ==
    \A op \in Ops(st) : \A r \in Results(st, op) :
        r.st.e[op.c] \in Range(st.e) \cup {0} \cup (IF op.n \in KindOps THEN {op.x[1]} ELSE IF op.n = "bad_alloc" THEN {1} ELSE IF op.n = "length" THEN {2} ELSE {})
\* a report is never lost
ReportSticks == \A op \in Ops(st) : op.n \in BuildOps \cup KindOps => \A r \in Results(st, op) : r.st.e[op.c] # 0
\* asking does not clear
AskPure == \A op \in Ops(st) : op.n \in AskOps => \A r \in Results(st, op) : r.st = st
Emit == EmitTable => PrintT("@@" \o ToJson([s |-> st, ops |-> { [o |-> op, r |-> Outcomes(st, op)] : op \in Ops(st) }]))
=============================================================================
