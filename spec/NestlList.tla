------------------------------ MODULE NestlList ------------------------------
(***************************************************************************)
(* Contract of nestl::list.  State: two lists, st.q[c] the sequence held    *)
(* by list c, st.al[c] the identity of its allocator.                       *)
(*                                                                          *)
(* Outcomes also say where each element of the result comes from (org):     *)
(* 10000*c + i for the i-th (1-based) element list c held before the call,    *)
(* 0 for an element created by the call.  An element with an origin is the  *)
(* same object: same address, and iterators to it stay valid.               *)
(***************************************************************************)
EXTENDS NestlBase

Other(c) == 3 - c
DefaultValue == 0
AnyOrg == <<-1>>                              \* origins not specified

PushBack  == {"push_back", "push_back_mv", "emplace_back", "t_push_back", "t_push_back_mv"}
PushFront == {"push_front", "push_front_mv", "emplace_front"}
InsertOne == {"insert", "insert_mv", "emplace"}
RangeIns  == {"insert_range", "insert_range_in", "insert_range_bi"}
AssignR   == {"assign_range", "assign_range_in"}
Assigns   == AssignR \cup {"assign_n", "assign_n_default", "assign_own", "copy", "copy_self"}
TCopy     == {"t_copy_assign", "t_copy_assign_self"}
Merges    == {"merge", "merge_rv", "merge_comp", "merge_comp_rv"}
Sorts     == {"sort", "sort_comp"}
SpliceAll == {"splice_all", "splice_all_rv"}
SpliceOne == {"splice_one", "splice_one_rv"}
SpliceRng == {"splice_range", "splice_range_rv"}
Splices   == SpliceAll \cup SpliceOne \cup SpliceRng \cup {"splice_self_one", "splice_self_range"}
Reads     == {"eq", "eq_self", "eq_seq"}

\* orderings: operator< on values, or the harness' comparator (greater)
Less(op, a, b) == IF op.n \in {"sort_comp", "merge_comp", "merge_comp_rv"} THEN a > b ELSE a < b
IsSorted(op, q) == \A i \in 1..(Len(q) - 1) : ~Less(op, q[i + 1], q[i])

\* items: <<value, origin>>
Items(st, c) == [i \in 1..Len(st.q[c]) |-> <<st.q[c][i], 10000 * c + i>>]
New(s) == [i \in 1..Len(s) |-> <<s[i], 0>>]
Values(t) == [i \in 1..Len(t) |-> t[i][1]]
Origins(t) == [i \in 1..Len(t) |-> t[i][2]]

\* stable insertion sort of items
RECURSIVE InsSorted(_, _, _), SortItems(_, _)
InsSorted(op, t, x) ==
    IF t = <<>> THEN <<x>>
    ELSE IF Less(op, x[1], t[Len(t)][1]) THEN Append(InsSorted(op, Take(t, Len(t) - 1), x), t[Len(t)])
    ELSE Append(t, x)
SortItems(op, t) == IF t = <<>> THEN <<>> ELSE InsSorted(op, SortItems(op, Take(t, Len(t) - 1)), t[Len(t)])

\* stable merge: on ties the element of the first list comes first
RECURSIVE MergeItems(_, _, _)
MergeItems(op, a, b) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF Less(op, Head(b)[1], Head(a)[1]) THEN <<Head(b)>> \o MergeItems(op, a, Tail(b))
    ELSE <<Head(a)>> \o MergeItems(op, Tail(a), b)

\* move the items [i, j) of t (0-based) in front of position p; p outside (i, j)
MoveRange(t, p, i, j) ==
    IF p <= i THEN Take(t, p) \o Slice(t, i, j) \o Slice(t, p, i) \o Drop(t, j)
    ELSE Take(t, i) \o Slice(t, j, p) \o Slice(t, i, j) \o Drop(t, p)

\* preconditions the caller has to meet
Pre(st, op) ==
    LET c == op.c  d == Other(op.c)
    IN CASE op.n \in Merges -> st.al[1] = st.al[2] /\ IsSorted(op, st.q[c]) /\ IsSorted(op, st.q[d])
         [] op.n \in SpliceAll \cup SpliceOne \cup SpliceRng -> st.al[1] = st.al[2]
         [] op.n = "splice_self_range" -> op.x[2] <= op.x[3] /\ (op.x[1] < op.x[2] \/ op.x[1] >= op.x[3])
         [] OTHER -> TRUE

\* items of list op.c and of the other list after success (for content ops)
After(st, op) ==
    LET c == op.c
        d == Other(c)
        t == Items(st, c)
        u == Items(st, d)
        x == op.x
        q == st.q[c]
        ins(p, s) == InsertAt(t, p, New(s))
    IN CASE op.n \in PushBack -> <<Append(t, <<x[1], 0>>), u>>
         [] op.n \in {"push_own", "emplace_own"} -> <<Append(t, <<q[x[1] + 1], 0>>), u>>
         [] op.n \in PushFront -> << <<<<x[1], 0>>>> \o t, u>>
         [] op.n = "push_front_own" -> << <<<<q[x[1] + 1], 0>>>> \o t, u>>
         [] op.n \in InsertOne -> <<ins(x[1], <<x[2]>>), u>>
         [] op.n = "insert_own" -> <<ins(x[1], <<q[x[2] + 1]>>), u>>
         [] op.n = "insert_n" -> <<ins(x[1], Rep(x[2], x[3])), u>>
         [] op.n = "insert_n_own" -> <<ins(x[1], Rep(x[2], q[x[3] + 1])), u>>
         [] op.n \in RangeIns -> <<ins(x[1], op.s), u>>
         [] op.n = "insert_range_other" -> <<ins(x[1], st.q[d]), u>>
         [] op.n = "erase" -> <<EraseAt(t, x[1]), u>>
         [] op.n = "erase_range" -> <<EraseRange(t, x[1], x[2]), u>>
         [] op.n = "pop_back" -> <<Take(t, Len(t) - 1), u>>
         [] op.n = "pop_front" -> <<Drop(t, 1), u>>
         [] op.n = "clear" -> <<<<>>, u>>
         [] op.n = "assign_n" -> <<New(Rep(x[1], x[2])), u>>
         [] op.n = "assign_n_default" -> <<New(Rep(x[1], DefaultValue)), u>>
         [] op.n = "assign_own" -> <<New(Rep(x[1], q[x[2] + 1])), u>>
         [] op.n \in AssignR -> <<New(op.s), u>>
         [] op.n \in {"copy", "t_copy_assign"} -> <<New(st.q[d]), u>>
         [] op.n \in {"copy_self", "t_copy_assign_self"} -> <<New(q), u>>
         [] op.n = "write" -> <<[t EXCEPT ![x[1] + 1][1] = x[2]], u>>
         [] op.n \in Merges -> <<MergeItems(op, t, u), <<>>>>
         [] op.n \in SpliceAll -> <<InsertAt(t, x[1], u), <<>>>>
         [] op.n \in SpliceOne -> <<InsertAt(t, x[1], <<u[x[2] + 1]>>), EraseAt(u, x[2])>>
         [] op.n \in SpliceRng -> <<InsertAt(t, x[1], Slice(u, x[2], x[3])), EraseRange(u, x[2], x[3])>>
         [] op.n = "splice_self_one" -> <<IF x[1] = x[2] THEN t ELSE MoveRange(t, x[1], x[2], x[2] + 1), u>>
         [] op.n = "splice_self_range" -> <<IF x[2] = x[3] THEN t ELSE MoveRange(t, x[1], x[2], x[3]), u>>
         [] op.n \in Sorts -> <<SortItems(op, t), u>>
         [] OTHER -> <<t, u>>

Target(st, op) == Values(After(st, op)[1])

Ret(st, op) ==
    CASE op.n = "insert_mv" -> <<op.x[1], 1>>             \* 1: the argument was taken as an rvalue and has been moved from
      [] op.n \in {"push_back_mv", "push_front_mv", "t_push_back_mv"} -> <<1>>
      [] op.n \in InsertOne \cup {"insert_own"} -> <<op.x[1]>>
      [] op.n \in {"erase", "erase_range"} -> <<op.x[1]>>
      [] op.n = "eq" -> <<IF st.q[1] = st.q[2] THEN 1 ELSE 0>>
      [] op.n = "eq_self" -> <<1>>
      \* compared, both ways round, with a fresh list holding op.s
      [] op.n = "eq_seq" -> LET b == IF st.q[op.c] = op.s THEN 1 ELSE 0 IN <<b, b>>
      [] OTHER -> <<>>

Both(c, s, t) == IF c = 1 THEN <<s, t>> ELSE <<t, s>>

\* origins of copies are not specified (an implementation may reuse nodes)
FreeOrigins(op) == op.n \in Assigns \cup TCopy

Results(st, op) ==
    LET c == op.c
        d == Other(c)
        t == Items(st, c)
        u == Items(st, d)
        res(s, org) == [st |-> s, ret |-> Ret(st, op), org |-> org]
        put(a, b, al) == res([q |-> Both(c, Values(a), Values(b)), al |-> al], Both(c, Origins(a), Origins(b)))
        alOf(x, y) == IF c = 1 THEN <<x, y>> ELSE <<y, x>>
    IN CASE op.n = "swap" -> { put(u, t, <<st.al[2], st.al[1]>>) }
         [] op.n = "swap_self" -> { put(t, u, st.al) }
         [] op.n = "move_assign" -> { put(u, w, alOf(st.al[d], a)) : w \in {<<>>, t}, a \in {st.al[1], st.al[2]} }
         [] op.n = "move_self" -> { put(t, u, st.al), put(<<>>, u, st.al) }
         [] op.n = "mctor" -> { put(<<>>, t, alOf(st.al[c], st.al[c])) }
         [] op.n = "t_copy_ctor" ->
              { [st |-> [st EXCEPT !.q[d] = st.q[c], !.al[d] = st.al[c]], ret |-> <<>>, org |-> Both(c, Origins(t), AnyOrg)] }
         [] op.n = "t_copy_assign" ->
              { [st |-> [st EXCEPT !.q[c] = st.q[d], !.al[c] = a], ret |-> <<>>, org |-> Both(c, AnyOrg, Origins(u))] : a \in {st.al[1], st.al[2]} }
         [] OTHER ->
              LET a == After(st, op)
                  r == put(a[1], a[2], st.al)
              IN IF FreeOrigins(op) THEN { [r EXCEPT !.org = Both(c, AnyOrg, Origins(u))] } ELSE { r }

\* operations which neither allocate nor construct, copy or move an element
Pure(op) == op.n \in Merges \cup Splices \cup Sorts \cup Reads \cup {"swap", "swap_self", "move_assign", "move_self", "mctor",
                     "erase", "erase_range", "pop_back", "pop_front", "clear", "write"}
MayFail(op) == ~Pure(op)

MultiIns == RangeIns \cup {"insert_n", "insert_n_own", "insert_range_other"}
Inserted(st, op) ==
    CASE op.n = "insert_n" -> Rep(op.x[2], op.x[3])
      [] op.n = "insert_n_own" -> Rep(op.x[2], st.q[op.c][op.x[3] + 1])
      [] op.n = "insert_range_other" -> st.q[Other(op.c)]
      [] OTHER -> op.s

\* outcomes of a failed call
FailOuts(st, op, f) ==
    LET c == op.c
        d == Other(c)
        t == Items(st, c)
        u == Items(st, d)
        goal == Target(st, op)
        out(s, org) == [st |-> [st EXCEPT !.q[c] = s], org |-> Both(c, org, Origins(u))]
        same == out(st.q[c], Origins(t))
    IN IF ~MayFail(op) THEN {}
       ELSE CASE op.n \in MultiIns ->
                   LET s == Inserted(st, op)
                   IN { LET a == InsertAt(t, op.x[1], New(Take(s, j))) IN out(Values(a), Origins(a)) : j \in 0..(Len(s) - 1) }
              [] op.n \in Assigns -> { out(st.q[c], AnyOrg) } \cup { out(Take(goal, j), AnyOrg) : j \in 0..(Len(goal) - 1) }
              [] op.n = "t_copy_ctor" -> { [st |-> [st EXCEPT !.q[d] = <<>>], org |-> Both(c, Origins(t), <<>>)] }
              [] OTHER -> { same }

FailOK(st, op, f, new) == \E o \in FailOuts(st, op, f) : o.st = new

ErrOf(f) == CASE f = "none" -> "none" [] f = "alloc" -> "bad_alloc" [] f = "elem" -> "elem" [] f = "size" -> "bad_alloc"
=============================================================================
