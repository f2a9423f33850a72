----------------------------- MODULE NestlVector -----------------------------
(***************************************************************************)
(* Contract of nestl::vector (both library modes).                          *)
(*                                                                          *)
(* State: two vectors sharing one element type; st.q[c] is the sequence     *)
(* held by vector c and st.al[c] the identity of its allocator.             *)
(*                                                                          *)
(* Every operation either succeeds (error object stays clear; one of        *)
(* Results), or some allocation / element construction inside it fails      *)
(* (f = "alloc" / "elem"), the error object reports that failure, and the   *)
(* state afterwards satisfies FailOK.                                       *)
(***************************************************************************)
EXTENDS NestlBase

Other(c) == 3 - c
DefaultValue == 0

AppendOps  == {"push_back", "push_back_mv", "emplace_back", "t_push_back", "t_push_back_mv"}
OwnAppend  == {"push_own", "emplace_own", "t_push_own"}
InsertOps  == {"insert", "insert_mv"}
RangeIns   == {"insert_range", "insert_range_in", "insert_range_bi"}
AssignR    == {"assign_range", "assign_range_in", "assign_range_bi"}
PureOps    == {"reserve", "shrink", "eq", "eq_self", "eq_seq", "write_none"}
SelfOps    == {"swap_self", "copy_self", "t_copy_assign_self", "move_self"}
PairOps    == {"copy", "t_copy_assign", "t_copy_noexcept", "move_assign", "t_move_noexcept", "swap",
               "mctor", "t_copy_ctor", "t_copy_ctor_noexcept", "t_move_ctor_noexcept"}

\* Content of the vector op.c acts on once a content-producing op has succeeded.
Target(st, op) ==
    LET q == st.q[op.c]
        x == op.x
    IN CASE op.n \in AppendOps -> Append(q, x[1])
         [] op.n \in OwnAppend -> Append(q, q[x[1] + 1])
         [] op.n \in InsertOps -> InsertAt(q, x[1], <<x[2]>>)
         [] op.n = "insert_own" -> InsertAt(q, x[1], <<q[x[2] + 1]>>)
         [] op.n \in RangeIns -> InsertAt(q, x[1], op.s)
         [] op.n = "resize" -> IF x[1] <= Len(q) THEN Take(q, x[1]) ELSE q \o Rep(x[1] - Len(q), DefaultValue)
         [] op.n = "resize_v" -> IF x[1] <= Len(q) THEN Take(q, x[1]) ELSE q \o Rep(x[1] - Len(q), x[2])
         [] op.n = "resize_own" -> IF x[1] <= Len(q) THEN Take(q, x[1]) ELSE q \o Rep(x[1] - Len(q), q[x[2] + 1])
         [] op.n = "clear" -> <<>>
         [] op.n = "assign_n" -> Rep(x[1], x[2])
         [] op.n = "assign_n_default" -> Rep(x[1], DefaultValue)
         [] op.n = "assign_own" -> Rep(x[1], q[x[2] + 1])
         [] op.n \in AssignR -> op.s
         [] op.n = "write" -> [q EXCEPT ![x[1] + 1] = x[2]]
         [] op.n \in {"copy", "t_copy_assign", "t_copy_noexcept"} -> st.q[Other(op.c)]
         [] OTHER -> q

SetQ(st, c, s) == [st EXCEPT !.q[c] = s]
SetBoth(st, c, s, t) == [st EXCEPT !.q[c] = s, !.q[Other(c)] = t]

\* Result value of a successful operation: offset of the returned iterator, or a boolean as 0/1.
Ret(st, op) ==
    CASE op.n = "insert_mv" -> <<op.x[1], 1>>             \* 1: the argument was taken as an rvalue and has been moved from
      [] op.n \in {"push_back_mv", "t_push_back_mv"} -> <<1>>
      [] op.n \in InsertOps \cup {"insert_own"} -> <<op.x[1]>>
      [] op.n = "eq" -> <<IF st.q[1] = st.q[2] THEN 1 ELSE 0>>
      [] op.n = "eq_self" -> <<1>>
      \* compared, both ways round, with a fresh vector holding op.s
      [] op.n = "eq_seq" -> LET b == IF st.q[op.c] = op.s THEN 1 ELSE 0 IN <<b, b>>
      [] OTHER -> <<>>

Results(st, op) ==
    LET c == op.c
        d == Other(c)
        r(s) == [st |-> s, ret |-> Ret(st, op)]
    IN CASE op.n = "swap" ->
              { r([q |-> <<st.q[2], st.q[1]>>, al |-> <<st.al[2], st.al[1]>>]) }
         [] op.n \in {"move_assign", "t_move_noexcept"} ->
              \* the target takes over content and allocator; the source stays valid
              { r([st EXCEPT !.q[c] = st.q[d], !.al[c] = st.al[d], !.q[d] = w, !.al[d] = a]) :
                    w \in {<<>>, st.q[c]}, a \in {st.al[1], st.al[2]} }
         [] op.n = "move_self" -> { r(st), r(SetQ(st, c, <<>>)) }
         [] op.n \in {"mctor", "t_move_ctor_noexcept"} ->
              \* the other vector is destroyed and constructed anew from c, which becomes empty
              { r([st EXCEPT !.q[d] = st.q[c], !.al[d] = st.al[c], !.q[c] = <<>>]) }
         [] op.n \in {"t_copy_ctor", "t_copy_ctor_noexcept"} ->
              { r([st EXCEPT !.q[d] = st.q[c], !.al[d] = st.al[c]]) }
         [] op.n \in {"t_copy_assign", "t_copy_noexcept"} ->
              { r([st EXCEPT !.q[c] = st.q[d], !.al[c] = a]) : a \in {st.al[1], st.al[2]} }
         [] op.n \in PureOps \cup SelfOps -> { r(st) }
         [] OTHER -> { r(SetQ(st, c, Target(st, op))) }

\* Operations which may allocate or construct elements, i.e. may fail at all.
MayFail(op) == op.n \notin {"clear", "eq", "eq_self", "eq_seq", "write", "swap", "swap_self", "move_assign", "move_self",
                            "t_move_noexcept", "mctor", "t_move_ctor_noexcept"}

\* Failure guarantees.  s is the content of vector op.c afterwards.
FailContent(st, op, f, s) ==
    LET q == st.q[op.c]
        t == Target(st, op)
    IN CASE op.n \in AppendOps \cup OwnAppend \cup {"reserve", "shrink", "t_copy_assign", "t_copy_noexcept", "t_copy_assign_self"} -> s = q
         [] op.n \in InsertOps \cup {"insert_own"} ->
              IF f = "alloc" \/ op.x[1] = Len(q) THEN s = q
              ELSE IsSubseq(s, t) /\ s # t
         [] op.n \in RangeIns ->
              IF f = "alloc" \/ op.x[1] = Len(q)
              THEN \E j \in 0..Len(op.s) : j < Len(op.s) /\ s = InsertAt(q, op.x[1], Take(op.s, j))
              ELSE IsSubseq(s, t) /\ s # t
         [] op.n \in {"resize", "resize_v", "resize_own"} -> Len(t) > Len(q) /\ IsPrefixOf(q, s) /\ IsPrefixOf(s, t) /\ s # t
         [] op.n \in AssignR \cup {"assign_n", "assign_n_default", "assign_own", "copy", "copy_self"} -> s = q \/ (IsPrefixOf(s, t) /\ s # t) \/ (s = <<>>)
         [] op.n \in {"t_copy_ctor", "t_copy_ctor_noexcept"} -> s = q
         [] OTHER -> FALSE

FailOK(st, op, f, new) ==
    /\ MayFail(op)
    /\ IF op.n \in {"t_copy_ctor", "t_copy_ctor_noexcept"}
       \* no object came into being: the harness re-creates an empty vector in its place
       THEN new = SetQ(st, Other(op.c), <<>>)
       ELSE /\ new.al = st.al
            /\ new.q[Other(op.c)] = st.q[Other(op.c)]
            /\ FailContent(st, op, f, new.q[op.c])

\* Every state a failure may leave behind (small scope: used to emit outcome tables).
FailStates(st, op, f) ==
    IF ~MayFail(op) THEN {}
    ELSE LET q == st.q[op.c]
             t == Target(st, op)
             cand == IF op.n \in InsertOps \cup RangeIns \cup {"insert_own"}
                     THEN Subseqs(t)
                     ELSE {q} \cup { Take(t, j) : j \in 0..Len(t) }
         IN { n \in { SetQ(st, op.c, s) : s \in cand } \cup { SetQ(st, Other(op.c), <<>>) } : FailOK(st, op, f, n) }

ErrOf(f) == CASE f = "none" -> "none" [] f = "alloc" -> "bad_alloc" [] f = "elem" -> "elem" [] f = "size" -> "bad_alloc"
=============================================================================
