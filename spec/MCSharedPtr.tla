---------------------------- MODULE MCSharedPtr ----------------------------
(* Small-scope exploration of the shared_ptr contract, emission of outcome tables. *)
EXTENDS NestlSharedPtr, Json

CONSTANTS N, NS, NW, EmitTable
VARIABLE st

Places == 1..NS \cup {10} \cup { 20 + i : i \in 1..NW } \cup { 30 + i : i \in 1..NS } \cup { 40 + i : i \in 1..NS } \cup { 50 + o : o \in 1..N }
Two == {"copy", "cctor", "move", "mctor", "swap", "wcopy", "wcctor", "wmove", "wmctor", "lock", "lock_ctor"}
One == {"reset", "null", "nctor", "wreset", "wnctor", "const_copy", "tmp_weak", "tmp_lock", "base_lock", "self_swap"}
O(n, c, x) == [n |-> n, c |-> c, x |-> x, s |-> <<>>]
AllOps ==
         { op \in { O(n, 1, <<a, b>>) : n \in Two, a \in Places, b \in Places } : Kind(op.x[2]) = 5 => op.n \in {"copy", "move", "swap"} /\ Kind(op.x[1]) # 3 }
    \cup { O(n, 1, <<a, 0>>) : n \in One, a \in Places }
    \cup { O(n, 1, <<a, 3>>) : n \in {"tmp_copies", "tmp_weaks"}, a \in Places }
    \* c: allocator instance given to make_shared, 0: none given
    \cup { O(n, c, <<a, 0>>) : n \in {"make0", "make1"}, a \in 1..NS \cup {10, 31}, c \in {0, 1, 2} }
    \cup { O(n, c, <<a, b>>) : n \in {"make_nx", "make_nxmv", "make_copy"}, a \in 1..NS, b \in 1..NS \cup {31}, c \in {0, 2} }
Ops(s) == { op \in AllOps : Pre(s, op) /\ Results(s, op) # {} }

Faults == {"alloc", "elem"}
Outcomes(s, op) ==
    { [f |-> "none", st |-> r.st, ret |-> r.ret] : r \in Results(s, op) }
    \cup UNION { { [f |-> f, st |-> n, ret |-> <<"*">>] : n \in FailOuts(s, op, f) } : f \in Faults }

None(k) == [i \in 1..k |-> 0]
Init == st = [s |-> None(NS), b |-> 0, w |-> None(NW), nx |-> None(N), wk |-> None(N)]
Next == \E op \in Ops(st) : \E o \in Outcomes(st, op) : st' = o.st
Spec == Init /\ [][Next]_st
------------------------------------------------------------------------------
TypeOK == st.b \in 0..N /\ \A q \in {st.s, st.w, st.nx, st.wk} : \A i \in 1..Len(q) : q[i] \in 0..N
\* dead objects own and observe nothing
DeadOK == \A o \in 1..N : ~Alive(st, o) => st.nx[o] = 0 /\ st.wk[o] = 0
\* clauses about one step
DeathOK(op, r) ==
    op.n \notin Peeks =>
        LET dead == IF op.n \in Makes THEN Tail(r.ret) ELSE r.ret
            D == { dead[2 * i - 1] : i \in 1..(Len(dead) \div 2) }
            new == IF op.n \in Makes THEN {NewId(st)} ELSE {}
        IN \* an object dies exactly when its last owner goes: ret names exactly the objects which were alive and are not any more, each once
           /\ Cardinality(D) = Len(dead) \div 2
           /\ \A o \in 1..N \ new : (o \in D) <=> (Alive(st, o) /\ ~Alive(r.st, o))
           \* nothing is resurrected
           /\ \A o \in 1..N \ new : Alive(r.st, o) => Alive(st, o)
           /\ \A o \in new : Alive(r.st, o) \/ o \in D
\* observers alone never change who is alive or how many owners there are; moving and swapping conserve owners
WeakOK(op, r) ==
    op.n \in {"wcopy", "wcctor", "wmove", "wmctor", "wreset", "wnctor", "swap"} => \A o \in 1..N : Owners(r.st, o) = Owners(st, o)
LockOK(op, r) ==
    op.n \in {"lock", "lock_ctor"} =>
        LET t == Val(st, op.x[2]) IN Val(r.st, op.x[1]) = (IF Alive(st, t) THEN t ELSE 0) \/ Kind(op.x[1]) \in {3, 5}
PeekOK(op, r) == op.n \in Peeks => r.st = st
Step(ops) == \A op \in ops : \A r \in Results(st, op) : DeathOK(op, r) /\ WeakOK(op, r) /\ LockOK(op, r) /\ PeekOK(op, r)
Emit(ops) == EmitTable => PrintT("@@" \o ToJson([s |-> View(st), ops |-> { [o |-> op, p |-> Pure(op), r |-> { [x EXCEPT !.st = View(x.st)] : x \in Outcomes(st, op) }] : op \in ops }]))
StepOK == LET ops == Ops(st) IN Step(ops) /\ Emit(ops)
=============================================================================
