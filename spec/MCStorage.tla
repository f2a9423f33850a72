------------------------------ MODULE MCStorage ------------------------------
(* How containers come to follow NestlStorage: the protocols a vector (one    *)
(* block, growth), a node container (one block per element) and a counted     *)
(* object (the block outlives the object) follow, one memory event at a time, *)
(* with a failure at any allocation and any initialisation.                   *)
EXTENDS NestlStorage

CONSTANTS MaxLen, MaxB, Broken        \* Broken: names a defect of the protocol, "none" for the protocol as it is
VARIABLES h,                          \* the storage
          prog, fail,                 \* events still to be made by the running call, and what to do instead if the next fallible one fails
          v, ns, p,                   \* vector <<block, capacity, length>>; node blocks; counted object <<block, owners, observers>>
          nxt, goal                   \* next block number; the values v, ns, p take when the call ends
vars == <<h, prog, fail, v, ns, p, nxt, goal>>

E(e, b, k) == [e |-> e, b |-> b, k |-> k, o |-> 1, m |-> 0]
A(b, m) == [e |-> "alloc", b |-> b, k |-> 0, o |-> 1, m |-> m]
D(b, m) == [e |-> "dealloc", b |-> b, k |-> 0, o |-> 1, m |-> m]
Map(n, F(_)) == [i \in 1..n |-> F(i)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
DtorAll(b, n) == LET F(i) == E("dtor", b, i - 1) IN Map(n, F)

\* a program step is <<event, what to do instead when it fails (or <<>>: cannot fail)>>
Sure(es) == [i \in 1..Len(es) |-> <<es[i], <<>>>>]
Give(x) == IF x[2] = 0 /\ x[1] = 0 THEN <<>> ELSE <<D(x[1], x[2])>>

\* a vector takes n elements in all: into a new block when they do not fit
Fresh(b, i, undo) ==       \* default construct the cell, then initialise it; on failure undo
    <<  <<E("ctor", b, i), <<>>>>, <<E("init", b, i), <<E("initfail", b, i), E("dtor", b, i)>> \o undo>> >>
PushProg ==
    IF v[3] < v[2] THEN <<Fresh(v[1], v[3], <<>>), <<v[1], v[2], v[3] + 1>>>>
    ELSE LET c == IF v[2] = 0 THEN 1 ELSE 2 * v[2]
             b == nxt
             New == Fresh(b, v[3], (IF Broken = "leak" THEN <<>> ELSE <<D(b, c)>>))
             Mv(i) == <<E("ctor", b, i - 1), E("use", v[1], i - 1), E("use", b, i - 1)>>
             Old == Flat(Map(v[3], Mv)) \o (IF Broken = "live" THEN <<>> ELSE DtorAll(v[1], v[3]))
                    \o (IF v[2] = 0 THEN <<>> ELSE <<D(v[1], IF Broken = "count" THEN v[3] + 1 ELSE v[2])>>)
         IN << << <<A(b, c), <<E("none", 0, 0)>>>> >> \o New \o Sure(Old), <<b, c, v[3] + 1>> >>
\* element i goes: the later ones move down, the last place is destroyed
EraseProg(i) ==
    LET Mv(j) == <<E("use", v[1], i + j), E("use", v[1], i + j - 1)>>
    IN << Sure(Flat(Map(v[3] - i - 1, Mv)) \o <<E("dtor", v[1], v[3] - 1)>>), <<v[1], v[2], v[3] - 1>> >>
ClearProg == << Sure(DtorAll(v[1], v[3])), <<v[1], v[2], 0>> >>
\* a copy is built aside and takes over only when it is complete
RECURSIVE Building(_, _, _)
Building(b, i, n) ==
    IF i = n THEN <<>>
    ELSE << <<E("ctor", b, i), <<>>>>, <<E("use", v[1], i), <<>>>>,
            <<E("init", b, i), <<E("initfail", b, i)>> \o DtorAll(b, i + 1) \o <<D(b, n)>>>> >> \o Building(b, i + 1, n)
CopyProg == LET b == nxt IN
    << << <<A(b, v[3]), <<E("none", 0, 0)>>>> >> \o Building(b, 0, v[3])
       \o Sure((IF Broken = "early" THEN <<D(v[1], v[2])>> \o DtorAll(v[1], v[3]) ELSE DtorAll(v[1], v[3]) \o <<D(v[1], v[2])>>)), <<b, v[3], v[3]>> >>

NodeProg == LET b == nxt IN << << <<A(b, 1), <<E("none", 0, 0)>>>> >> \o Fresh(b, 0, IF Broken = "node" THEN <<>> ELSE <<D(b, 1)>>), ns \cup {b} >>
UnlinkProg(b) == << Sure(<<E("dtor", b, 0), D(b, 1)>>), ns \ {b} >>

MakeProg == LET b == nxt IN << << <<A(b, 1), <<E("none", 0, 0)>>>> >> \o Fresh(b, 0, <<D(b, 1)>>), <<b, 1, 0>> >>
DropProg ==  \* an owner goes: the last one takes the object with it, and the block if nobody observes it
    LET last == p[2] = 1 IN
    << Sure((IF last THEN <<E("dtor", p[1], 0)>> ELSE <<>>)
            \o (IF last /\ p[3] = 0 THEN (IF Broken = "twice" THEN <<E("dtor", p[1], 0)>> ELSE <<>>) \o <<D(p[1], 1)>> ELSE <<>>)),
       IF last /\ p[3] = 0 THEN <<0, 0, 0>> ELSE <<p[1], p[2] - 1, p[3]>> >>
UnwatchProg ==
    << Sure(IF p[2] = 0 /\ p[3] = 1 THEN <<D(p[1], 1)>> ELSE <<>>), IF p[2] = 0 /\ p[3] = 1 THEN <<0, 0, 0>> ELSE <<p[1], p[2], p[3] - 1>> >>

NoGoal == <<v, ns, p>>
Idle == prog = <<>>
Start(q, g) == /\ prog' = q /\ goal' = g /\ fail' = FALSE /\ nxt' = nxt + 1 /\ UNCHANGED <<h, v, ns, p>>
Call ==
    /\ Idle /\ goal = NoGoal /\ nxt < MaxB
    /\ \/ v[3] < MaxLen /\ Start(PushProg[1], <<PushProg[2], ns, p>>)
       \/ \E i \in 0..(v[3] - 1) : Start(EraseProg(i)[1], <<EraseProg(i)[2], ns, p>>)
       \/ v[3] > 0 /\ Start(ClearProg[1], <<ClearProg[2], ns, p>>)
       \/ v[3] > 0 /\ Start(CopyProg[1], <<CopyProg[2], ns, p>>)
       \/ Cardinality(ns) < 2 /\ Start(NodeProg[1], <<v, NodeProg[2], p>>)
       \/ \E b \in ns : Start(UnlinkProg(b)[1], <<v, UnlinkProg(b)[2], p>>)
       \/ p[1] = 0 /\ Start(MakeProg[1], <<v, ns, MakeProg[2]>>)
       \/ p[2] > 0 /\ Start(DropProg[1], <<v, ns, DropProg[2]>>)
       \/ p[2] > 0 /\ p[2] < 2 /\ Start(<<>>, <<v, ns, <<p[1], p[2] + 1, p[3]>>>>)
       \/ p[2] > 0 /\ p[3] < 2 /\ Start(<<>>, <<v, ns, <<p[1], p[2], p[3] + 1>>>>)
       \/ p[3] > 0 /\ Start(UnwatchProg[1], <<v, ns, UnwatchProg[2]>>)
\* one memory event; the first fallible one which fails ends the call after its undo steps, nothing changed
Step ==
    /\ prog # <<>>
    /\ \/ h' = After(h, prog[1][1]) /\ prog' = Tail(prog) /\ UNCHANGED <<goal, fail>>
       \/ /\ prog[1][2] # <<>> /\ ~fail
          /\ prog' = Sure(IF prog[1][2][1].e = "none" THEN <<>> ELSE prog[1][2]) /\ fail' = TRUE /\ goal' = NoGoal /\ UNCHANGED h
    /\ UNCHANGED <<v, ns, p, nxt>>
Return == Idle /\ goal # NoGoal /\ v' = goal[1] /\ ns' = goal[2] /\ p' = goal[3] /\ UNCHANGED <<h, prog, fail, nxt, goal>>

Init == h = EmptyHeap /\ prog = <<>> /\ fail = FALSE /\ v = <<0, 0, 0>> /\ ns = {} /\ p = <<0, 0, 0>> /\ nxt = 1 /\ goal = NoGoal
Next == Call \/ Step \/ Return
Spec == Init /\ [][Next]_vars

\* every event of every history is one NestlStorage allows
Disciplined == prog # <<>> => Wrong(h, prog[1][1]) = ""
\* and at rest exactly what the containers hold exists: blocks, objects, their state
AtRest ==
    (Idle /\ goal = NoGoal) =>
    LET vec == <<1, v[2], Map(v[3], LAMBDA i : <<v[1], i - 1>>)>>
        ctl == IF p[1] = 0 THEN {} ELSE {p[1]}
        RECURSIVE SeqOf(_)
        SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<(<<x, 0>>)>> \o SeqOf(S \ {x})
        lst == <<1, -1, SeqOf(ns)>>
    IN /\ \A b \in ctl : b \in DOMAIN h /\ (p[2] > 0 <=> Alive(h, b, 0))
       /\ QuietWrong([b \in DOMAIN h \ ctl |-> h[b]], <<vec, lst>>, 1) = ""
       /\ (v[2] = 0 /\ ns = {} /\ ctl = {} => Ended(h) = "")
       /\ Cardinality(DOMAIN h) = (IF v[2] > 0 THEN 1 ELSE 0) + Cardinality(ns) + Cardinality(ctl)
NothingVisibleFailed == (Idle /\ goal = NoGoal) => \A x \in LiveCells(h) : h[x[1]].cells[x[2]] # "bad"
=============================================================================
