---------------------------- MODULE NestlVectorCap ----------------------------
(* Capacity side of the vector contract: which operations may reallocate,     *)
(* what reserve/shrink_to_fit promise, what happens with sizes no allocator   *)
(* can satisfy, and the amortised cost of appending.                          *)
EXTENDS NestlVector

GrowOps == AppendOps \cup OwnAppend \cup InsertOps \cup {"insert_own"} \cup RangeIns \cup {"resize", "resize_v", "resize_own"}

\* cap, new: capacities of both vectors before/after; na: allocations performed;
\* moved[c]: the address of the first element slot of vector c changed
CapOK(st, op, f, nst, cap, new, na, moved) ==
    LET c == op.c
        d == Other(c)
        t == Target(st, op)
        still(v) == new[v] = cap[v] /\ moved[v] = 0
    IN /\ \A v \in {1, 2} : new[v] >= Len(nst.q[v])
       /\ CASE op.n \in {"swap", "swap_self"} ->
                 na = 0 /\ (IF op.n = "swap" THEN new = <<cap[2], cap[1]>> ELSE new = cap)
            [] op.n \in {"move_assign", "t_move_noexcept"} -> na = 0 /\ new[c] = cap[d]
            [] op.n = "move_self" -> na = 0
            [] op.n \in {"mctor", "t_move_ctor_noexcept"} -> na = 0 /\ new[d] = cap[c]
            [] op.n \in {"t_copy_ctor", "t_copy_ctor_noexcept"} -> still(c)
            [] op.n \in {"clear", "write", "eq", "eq_self", "eq_seq"} -> na = 0 /\ still(1) /\ still(2)
            [] op.n \in GrowOps ->
                 /\ still(d)
                 /\ IF Len(t) <= cap[c] THEN na = 0 /\ still(c)     \* no reallocation within capacity
                    ELSE (f = "none" => new[c] >= Len(t)) /\ new[c] >= cap[c]
            [] op.n = "reserve" ->
                 /\ still(d)
                 /\ new[c] >= cap[c]
                 /\ op.x[1] <= cap[c] => na = 0 /\ still(c)
                 /\ f = "none" => new[c] >= op.x[1]
                 /\ f # "none" => still(c)
            [] op.n = "shrink" ->
                 /\ still(d)
                 /\ f = "none" => new[c] = Len(st.q[c])
                 /\ f # "none" => still(c)
            [] OTHER -> still(d)

\* requests no allocator can satisfy: an error is reported and the content survives
HugeOps == {"huge_reserve", "huge_resize", "huge_resize_v", "huge_assign_n"}
HugeOK(st, op, err, nst, cap, new) ==
    /\ err \in {"bad_alloc", "length"}
    /\ nst.al = st.al
    /\ nst.q[Other(op.c)] = st.q[Other(op.c)]
    /\ nst.q[op.c] = st.q[op.c] \/ (op.n = "huge_assign_n" /\ nst.q[op.c] = <<>>)
    /\ op.n # "huge_assign_n" => new = cap

\* Appending elements one by one: re[k] is the number of reallocations while the size
\* grew from 2^(k-1) to 2^k.  Growth is geometric: the number per doubling is bounded
\* (10: capacity grows by at least 7% at every reallocation).
GrowthOK(re) == \A k \in 1..Len(re) : re[k] <= 10
=============================================================================
