------------------------------ MODULE NestlSet ------------------------------
(***************************************************************************)
(* Contract of nestl::set.  State: two sets; st.q[c] the keys of set c in   *)
(* iteration order, st.dir[c] which way its (stateful) comparator orders    *)
(* (0 ascending, 1 descending), st.al[c] the identity of its allocator.     *)
(* Keys are numbers; two keys are equivalent iff they agree in k \div 10,   *)
(* so 11 and 12 are equivalent, distinguishable keys.                       *)
(* org says where each key of the result comes from, as in NestlList:       *)
(* 100*c + i for the i-th key set c held before the call, 0 for a new one.  *)
(***************************************************************************)
EXTENDS NestlBase

CONSTANT Pocca          \* the allocator propagates on container copy assignment

Other(c) == 3 - c
AnyOrg == <<-1>>
Both(c, s, t) == IF c = 1 THEN <<s, t>> ELSE <<t, s>>

Class(k) == k \div 10
Less(dir, a, b) == IF dir = 0 THEN Class(a) < Class(b) ELSE Class(b) < Class(a)
Ordered(dir, q) == \A i \in 1..(Len(q) - 1) : Less(dir, q[i], q[i + 1])

Inserts == {"insert", "insert_mv"}
Finds   == {"find", "cfind"}

\* 1-based position of the key equivalent to k, or 0
Where(q, k) == IF \E i \in 1..Len(q) : Class(q[i]) = Class(k) THEN CHOOSE i \in 1..Len(q) : Class(q[i]) = Class(k) ELSE 0
\* how many keys come before k
Rank(dir, q, k) == Cardinality({ i \in 1..Len(q) : Less(dir, q[i], k) })

Idx(q) == [i \in 1..Len(q) |-> i]
OrgOf(c, q) == [i \in 1..Len(q) |-> 100 * c + i]

\* key an operation is about
KeyOf(st, op) == IF op.n \in {"insert_own", "erase_own", "find_own"} THEN st.q[op.c][op.x[1] + 1] ELSE op.x[1]

Results(st, op) ==
    LET c == op.c
        d == Other(c)
        q == st.q[c]
        dir == st.dir[c]
        O == Both(c, OrgOf(c, q), OrgOf(d, st.q[d]))
        res(s, ret, org) == [st |-> s, ret |-> ret, org |-> org]
        \* replace set c: contents and origins
        put(s, org, ret) == res([st EXCEPT !.q[c] = s], ret, [O EXCEPT ![c] = org])
        alOf(x, y) == IF c = 1 THEN <<x, y>> ELSE <<y, x>>
        both(sc, sd, dc, dd, ac, ad, oc, od) ==
            res([q |-> Both(c, sc, sd), dir |-> Both(c, dc, dd), al |-> Both(c, ac, ad)], <<>>, Both(c, oc, od))
    IN CASE op.n \in Inserts \cup {"insert_own"} ->
              LET k == KeyOf(st, op)
                  w == Where(q, k)
                  r == Rank(dir, q, k)
                  m == IF op.n = "insert_mv" THEN <<1>> ELSE <<>>      \* an inserted rvalue has been moved from
              IN IF w # 0 THEN { put(q, OrgOf(c, q), <<w - 1, 0>> \o m) }
                 ELSE { put(InsertAt(q, r, <<k>>), InsertAt(OrgOf(c, q), r, <<0>>), <<r, 1>> \o m) }
         [] op.n \in {"erase_key", "erase_own"} ->
              LET w == Where(q, KeyOf(st, op))
              IN IF w = 0 THEN { put(q, OrgOf(c, q), <<0>>) } ELSE { put(EraseAt(q, w - 1), EraseAt(OrgOf(c, q), w - 1), <<1>>) }
         [] op.n = "erase_pos" -> { put(EraseAt(q, op.x[1]), EraseAt(OrgOf(c, q), op.x[1]), <<op.x[1]>>) }
         [] op.n \in Finds \cup {"find_own"} ->
              LET w == Where(q, KeyOf(st, op)) IN { put(q, OrgOf(c, q), <<IF w = 0 THEN Len(q) ELSE w - 1>>) }
         [] op.n = "clear" -> { put(<<>>, <<>>, <<>>) }
         [] op.n = "copy" ->
              { [st |-> [st EXCEPT !.q[c] = st.q[d], !.dir[c] = st.dir[d], !.al[c] = IF Pocca THEN st.al[d] ELSE st.al[c]],
                 ret |-> <<>>, org |-> [O EXCEPT ![c] = AnyOrg]] }
         [] op.n = "copy_self" -> { [put(q, AnyOrg, <<>>) EXCEPT !.org = [O EXCEPT ![c] = AnyOrg]] }
         [] op.n = "move_assign" ->
              \* the source may be left empty or with the target's old content
                   { both(st.q[d], <<>>, st.dir[d], dd, st.al[d], a, OrgOf(d, st.q[d]), <<>>) : dd \in {st.dir[1], st.dir[2]}, a \in {st.al[1], st.al[2]} }
              \cup { both(st.q[d], q, st.dir[d], dir, st.al[d], st.al[c], OrgOf(d, st.q[d]), OrgOf(c, q)) }
         [] op.n = "move_self" -> { put(q, OrgOf(c, q), <<>>), put(<<>>, <<>>, <<>>) }
         [] op.n = "mctor" ->     \* the other set is destroyed and move constructed from set c
              { both(<<>>, q, dir, dir, st.al[c], st.al[c], <<>>, OrgOf(c, q)) }
         [] OTHER -> {}

Pure(op) == op.n \in Finds \cup {"find_own", "insert_own", "erase_key", "erase_own", "erase_pos", "clear", "move_assign", "move_self", "mctor"}
MayFail(op) == ~Pure(op)

FailOuts(st, op, f) ==
    LET c == op.c
        d == Other(c)
        O == Both(c, OrgOf(c, st.q[c]), OrgOf(d, st.q[d]))
        same == [st |-> st, org |-> O]
        loose(s) == [st |-> s, org |-> [O EXCEPT ![c] = AnyOrg]]
    IN IF ~MayFail(op) THEN {}
       ELSE CASE op.n = "copy" ->
                   LET al == IF Pocca THEN {st.al[1], st.al[2]} ELSE {st.al[c]}
                   IN { loose(st) }
                      \cup { loose([st EXCEPT !.q[c] = <<>>, !.dir[c] = dd, !.al[c] = a]) : dd \in {st.dir[1], st.dir[2]}, a \in al }
                      \cup { loose([st EXCEPT !.q[c] = s, !.dir[c] = st.dir[d], !.al[c] = a]) : s \in Subseqs(st.q[d]) \ {st.q[d]}, a \in al }
              [] op.n = "copy_self" -> { loose(st) }
              [] OTHER -> { same }

\* the same question asked about one recorded outcome (copies of long sets have too many subsets to enumerate)
FailOK(st, op, new, org) ==
    LET c == op.c
        d == Other(c)
        al == IF Pocca THEN {st.al[1], st.al[2]} ELSE {st.al[c]}
    IN IF op.n = "copy"
       THEN /\ new.q[d] = st.q[d] /\ new.al[d] = st.al[d] /\ new.al[c] \in al
            /\ new.q[c] = st.q[c] \/ IsSubseq(new.q[c], st.q[d])
       ELSE MayFail(op) /\ \E o \in FailOuts(st, op, "alloc") : o.st.q = new.q /\ o.st.al = new.al

ErrOf(f) == CASE f = "none" -> "none" [] f = "alloc" -> "bad_alloc" [] f = "elem" -> "elem" [] f = "size" -> "bad_alloc"

(***************************************************************************)
(* Balance: a lookup in a set of n keys consults few of them.  vis is the   *)
(* number of distinct stored keys the comparator was shown.                 *)
(* find, insert: vis <= 2 log2(n+1) + 2; erase by key searches both ends of *)
(* the range of equivalent keys: vis <= 4 log2(n+1) + 2.                    *)
(***************************************************************************)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
CostOK(n, vis, erasing) ==
    IF vis <= 2 THEN TRUE
    ELSE IF erasing
         THEN LET v == vis - 2 IN v <= 60 /\ Pow2(v \div 4) <= n + 1
         ELSE LET v == vis - 2 IN v <= 60 /\ Pow2(v \div 2) <= n + 1
=============================================================================
