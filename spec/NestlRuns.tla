------------------------------- MODULE NestlRuns -------------------------------
(***************************************************************************)
(* The vector and list contracts for very long sequences.  A sequence is    *)
(* written as runs <<a, n, d, o>>: the n values a, a+d, a+2d, ..., which    *)
(* are the elements with identities o, o+1, ... (o = 0: created by the      *)
(* call).  MCRuns checks that this is NestlVector and NestlList, i.e. that  *)
(* Expand commutes with every operation.                                    *)
(***************************************************************************)
EXTENDS NestlBase

CONSTANT Kind                                  \* "vector" or "list"
OBase == 100000000                             \* element i (1-based) of container c is OBase*c + i
AnyOrg == << <<0, 0, 0, -1>> >>                \* identities not specified

Other(c) == 3 - c

RECURSIVE RLen(_), RTake(_, _), RDrop(_, _), RAt(_, _), Label(_, _), Fresh(_), Expand(_), ExpandOrg(_)
RLen(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + RLen(Tail(r))
Front(h, k) == <<h[1], k, h[3], h[4]>>
Back(h, k) == <<h[1] + k * h[3], h[2] - k, h[3], IF h[4] = 0 THEN 0 ELSE h[4] + k>>
RTake(r, n) ==
    IF n = 0 \/ r = <<>> THEN <<>>
    ELSE LET h == Head(r) IN IF h[2] <= n THEN <<h>> \o RTake(Tail(r), n - h[2]) ELSE << Front(h, n) >>
RDrop(r, n) ==
    IF n = 0 \/ r = <<>> THEN r
    ELSE LET h == Head(r) IN IF h[2] <= n THEN RDrop(Tail(r), n - h[2]) ELSE <<Back(h, n)>> \o Tail(r)
\* value at a 0-based position
RAt(r, i) == LET h == Head(r) IN IF i < h[2] THEN h[1] + i * h[3] ELSE RAt(Tail(r), i - h[2])
RSlice(r, i, j) == RTake(RDrop(r, i), j - i)
RInsert(r, p, s) == RTake(r, p) \o s \o RDrop(r, p)
RErase(r, i, j) == RTake(r, i) \o RDrop(r, j)
RMove(t, p, i, j) ==
    IF p <= i THEN RTake(t, p) \o RSlice(t, i, j) \o RSlice(t, p, i) \o RDrop(t, j)
    ELSE RTake(t, i) \o RSlice(t, j, p) \o RSlice(t, i, j) \o RDrop(t, p)
RRep(n, v) == IF n = 0 THEN <<>> ELSE << <<v, n, 0, 0>> >>
\* give the elements the identities o+1, o+2, ... / forget the identities
Label(r, o) == IF r = <<>> THEN <<>> ELSE << <<Head(r)[1], Head(r)[2], Head(r)[3], o + 1>> >> \o Label(Tail(r), o + Head(r)[2])
Fresh(r) == IF r = <<>> THEN <<>> ELSE << <<Head(r)[1], Head(r)[2], Head(r)[3], 0>> >> \o Fresh(Tail(r))
Expand(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..Head(r)[2] |-> Head(r)[1] + (i - 1) * Head(r)[3]] \o Expand(Tail(r))
ExpandOrg(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..Head(r)[2] |-> IF Head(r)[4] = 0 THEN 0 ELSE Head(r)[4] + i - 1] \o ExpandOrg(Tail(r))

\* the same values / the same identities, however they are cut into runs
RECURSIVE RSame(_, _), OSame(_, _)
Min(a, b) == IF a < b THEN a ELSE b
Next1(p, k) == IF k = Head(p)[2] THEN Tail(p) ELSE <<Back(Head(p), k)>> \o Tail(p)
RSame(p, q) ==
    IF p = <<>> \/ q = <<>> THEN RLen(p) = RLen(q)
    ELSE IF Head(p)[2] = 0 THEN RSame(Tail(p), q) ELSE IF Head(q)[2] = 0 THEN RSame(p, Tail(q))
    ELSE LET k == Min(Head(p)[2], Head(q)[2])
         IN /\ Head(p)[1] = Head(q)[1]
            /\ k = 1 \/ Head(p)[3] = Head(q)[3]
            /\ RSame(Next1(p, k), Next1(q, k))
OSame(p, q) ==
    IF p = <<>> \/ q = <<>> THEN RLen(p) = RLen(q)
    ELSE IF Head(p)[2] = 0 THEN OSame(Tail(p), q) ELSE IF Head(q)[2] = 0 THEN OSame(p, Tail(q))
    ELSE LET k == Min(Head(p)[2], Head(q)[2])
         IN Head(p)[4] = Head(q)[4] /\ OSame(Next1(p, k), Next1(q, k))
RPrefix(p, q) == RLen(p) <= RLen(q) /\ RSame(p, RTake(q, RLen(p)))

AppendOps == {"push_back", "push_back_mv", "emplace_back"}
InsertOne == {"insert", "insert_mv"}
RangeIns  == {"insert_range", "insert_range_in", "insert_range_bi"}
AssignR   == {"assign_range", "assign_range_in", "assign_range_bi"}
Resizes   == {"resize", "resize_v", "resize_own"}
Assigns   == AssignR \cup {"assign_n", "assign_own", "copy", "copy_self"}
MultiIns  == RangeIns \cup {"insert_n", "insert_n_own", "insert_range_other"}
Reads     == {"eq", "eq_self"}
Pure(op)  == op.n \in Reads \cup {"swap", "move_assign", "mctor", "erase", "erase_range", "pop_back", "pop_front", "clear", "write",
                       "splice_all", "splice_one", "splice_range", "splice_self_one", "splice_self_range"}

RPre(st, op) ==
    CASE op.n \in {"splice_all", "splice_one", "splice_range"} -> st.al[1] = st.al[2]
      [] op.n = "splice_self_range" -> op.x[2] <= op.x[3] /\ (op.x[1] < op.x[2] \/ op.x[1] >= op.x[3])
      [] OTHER -> TRUE

Inserted(st, op) ==
    CASE op.n = "insert_n" -> RRep(op.x[2], op.x[3])
      [] op.n = "insert_n_own" -> RRep(op.x[2], RAt(st.q[op.c], op.x[3]))
      [] op.n = "insert_range_other" -> Fresh(st.q[Other(op.c)])
      [] OTHER -> op.sr

Items(st, c) == Label(st.q[c], OBase * c)
\* container op.c and the other one after success
RAfter(st, op) ==
    LET c == op.c
        t == Items(st, c)
        u == Items(st, Other(c))
        x == op.x
        n == RLen(t)
        grown(v) == IF x[1] <= n THEN RTake(t, x[1]) ELSE t \o RRep(x[1] - n, v)
    IN CASE op.n \in AppendOps -> <<t \o RRep(1, x[1]), u>>
         [] op.n \in {"push_own", "emplace_own"} -> <<t \o RRep(1, RAt(t, x[1])), u>>
         [] op.n \in {"push_front", "emplace_front"} -> <<RRep(1, x[1]) \o t, u>>
         [] op.n \in InsertOne -> <<RInsert(t, x[1], RRep(1, x[2])), u>>
         [] op.n = "insert_own" -> <<RInsert(t, x[1], RRep(1, RAt(t, x[2]))), u>>
         [] op.n \in MultiIns -> <<RInsert(t, x[1], Inserted(st, op)), u>>
         [] op.n = "erase" -> <<RErase(t, x[1], x[1] + 1), u>>
         [] op.n = "erase_range" -> <<RErase(t, x[1], x[2]), u>>
         [] op.n = "pop_back" -> <<RTake(t, n - 1), u>>
         [] op.n = "pop_front" -> <<RDrop(t, 1), u>>
         [] op.n = "clear" -> <<<<>>, u>>
         [] op.n = "resize" -> <<grown(0), u>>
         [] op.n = "resize_v" -> <<grown(x[2]), u>>
         [] op.n = "resize_own" -> <<grown(RAt(t, x[2])), u>>
         [] op.n = "assign_n" -> <<RRep(x[1], x[2]), u>>
         [] op.n = "assign_own" -> <<RRep(x[1], RAt(t, x[2])), u>>
         [] op.n \in AssignR -> <<op.sr, u>>
         [] op.n = "copy" -> <<Fresh(u), u>>
         [] op.n = "copy_self" -> <<Fresh(t), u>>
         [] op.n = "write" -> <<RTake(t, x[1]) \o << <<x[2], 1, 0, OBase * c + x[1] + 1>> >> \o RDrop(t, x[1] + 1), u>>
         [] op.n = "splice_all" -> <<RInsert(t, x[1], u), <<>>>>
         [] op.n = "splice_one" -> <<RInsert(t, x[1], RSlice(u, x[2], x[2] + 1)), RErase(u, x[2], x[2] + 1)>>
         [] op.n = "splice_range" -> <<RInsert(t, x[1], RSlice(u, x[2], x[3])), RErase(u, x[2], x[3])>>
         [] op.n = "splice_self_one" -> <<IF x[1] = x[2] THEN t ELSE RMove(t, x[1], x[2], x[2] + 1), u>>
         [] op.n = "splice_self_range" -> <<IF x[2] = x[3] THEN t ELSE RMove(t, x[1], x[2], x[3]), u>>
         [] OTHER -> <<t, u>>

Both(c, s, t) == IF c = 1 THEN <<s, t>> ELSE <<t, s>>

RRet(st, op) ==
    CASE op.n = "insert_mv" -> <<op.x[1], 1>>
      [] op.n = "push_back_mv" -> <<1>>
      [] op.n \in InsertOne \cup {"insert_own", "erase", "erase_range"} -> <<op.x[1]>>
      [] op.n = "eq" -> <<IF RSame(st.q[1], st.q[2]) THEN 1 ELSE 0>>
      [] op.n = "eq_self" -> <<1>>
      [] OTHER -> <<>>

RResults(st, op) ==
    LET c == op.c
        d == Other(c)
        t == Items(st, c)
        u == Items(st, d)
        put(a, b, al) == [q |-> Both(c, a, b), al |-> al, ret |-> RRet(st, op)]
        alOf(x, y) == IF c = 1 THEN <<x, y>> ELSE <<y, x>>
    IN CASE op.n = "swap" -> { put(u, t, <<st.al[2], st.al[1]>>) }
         [] op.n = "move_assign" -> { put(u, w, alOf(st.al[d], a)) : w \in {<<>>, t}, a \in {st.al[1], st.al[2]} }
         [] op.n = "mctor" -> { put(<<>>, t, alOf(st.al[c], st.al[c])) }
         [] OTHER -> LET a == RAfter(st, op) IN { put(a[1], a[2], st.al) }

\* identities after assignment are not specified, those of vector elements never are
OrgOK(op, r, q) ==
    Kind = "vector" \/ (OSame(r.q[Other(op.c)], q[Other(op.c)]) /\ (op.n \in Assigns \/ OSame(r.q[op.c], q[op.c])))

\* content s of container op.c after a failed call
RFailContent(st, op, f, s) ==
    LET t == st.q[op.c]
        g == RAfter(st, op)[1]
        part == Inserted(st, op)
        added == RLen(s) - RLen(t)
        firsts == added >= 0 /\ added < RLen(part) /\ RSame(s, RInsert(t, op.x[1], RTake(part, added)))
    IN CASE op.n \in MultiIns ->
              IF Kind = "list" \/ f = "alloc" \/ op.x[1] = RLen(t) THEN firsts ELSE RLen(s) < RLen(g)
         [] op.n \in InsertOne \cup {"insert_own"} ->
              IF Kind = "list" \/ f = "alloc" \/ op.x[1] = RLen(t) THEN RSame(s, t) ELSE RLen(s) < RLen(g)
         [] op.n \in Resizes -> RLen(g) > RLen(t) /\ RPrefix(t, s) /\ RPrefix(s, g) /\ RLen(s) < RLen(g)
         [] op.n \in Assigns -> RSame(s, t) \/ (RPrefix(s, g) /\ RLen(s) < RLen(g)) \/ (Kind = "vector" /\ RLen(s) = 0)
         [] OTHER -> RSame(s, t)
RFailOK(st, op, f, new) ==
    /\ ~Pure(op)
    /\ new.al = st.al
    /\ RSame(new.q[Other(op.c)], st.q[Other(op.c)])
    /\ RFailContent(st, op, f, new.q[op.c])
\* nodes a failed call left in place are the ones which were there before
RFailOrgOK(st, op, q) ==
    LET c == op.c
        added == RLen(q[c]) - RLen(st.q[c])
    IN Kind = "vector" \/
       (/\ OSame(q[Other(c)], Items(st, Other(c)))
        /\ op.n \notin Assigns =>
             IF op.n \in MultiIns THEN OSame(q[c], RInsert(Items(st, c), op.x[1], RRep(added, 0))) ELSE OSame(q[c], Items(st, c)))

ErrOf(f) == CASE f = "none" -> "none" [] f = "alloc" -> "bad_alloc" [] f = "elem" -> "elem" [] f = "size" -> "bad_alloc"

\* allocations and copies: none in pure calls; within capacity a vector does not reallocate
RCapOK(st, op, f, nst, cap, new, na, made, moved) ==
    LET c == op.c  d == Other(c)
        g == RLen(RAfter(st, op)[1])
        still(v) == new[v] = cap[v] /\ moved[v] = 0
        grows == AppendOps \cup InsertOne \cup RangeIns \cup Resizes \cup {"push_own", "emplace_own", "insert_own"}
    IN /\ Pure(op) => na = 0
       /\ (Kind = "list" /\ Pure(op)) => made = 0
       /\ Kind = "vector" =>
          /\ \A v \in {1, 2} : new[v] >= RLen(nst.q[v])
          /\ CASE op.n = "swap" -> new = <<cap[2], cap[1]>>
               [] op.n = "move_assign" -> new[c] = cap[d]
               [] op.n = "mctor" -> new[d] = cap[c]
               [] op.n \in grows -> still(d) /\ (IF g <= cap[c] THEN na = 0 /\ still(c) ELSE (f = "none" => new[c] >= g) /\ new[c] >= cap[c])
               [] op.n = "reserve" -> still(d) /\ new[c] >= cap[c] /\ (op.x[1] <= cap[c] => na = 0 /\ still(c)) /\ (f = "none" => new[c] >= op.x[1]) /\ (f # "none" => still(c))
               [] op.n = "shrink" -> still(d) /\ (f = "none" => new[c] = RLen(st.q[c])) /\ (f # "none" => still(c))
               [] op.n \in {"clear", "write", "eq", "eq_self"} -> still(1) /\ still(2)
               [] OTHER -> still(d)
=============================================================================
