------------------------------ MODULE NestlHeap ------------------------------
(* The default allocator one level down: blocks are address ranges of a heap  *)
(* and every object of a block occupies its own addresses.  Owners (clients)  *)
(* take blocks one at a time and give all of them back, also when the heap    *)
(* refuses one in between.  Implements NestlAllocator (property Refines).     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Types, Counts, H,         \* H addresses: 0..H-1
          MaxTake                          \* blocks a client wants
VARIABLES blk,                             \* slot -> <<>> or <<type, n, address>>
          mem,                             \* address -> the slot which wrote it, 0: nobody
          own, want, told                  \* the running client: its blocks, how many it still wants, error it saw
vars == <<blk, mem, own, want, told>>

SizeOf(t) == CASE t = 1 -> 1 [] t = 2 -> 2 [] t = 3 -> 3 [] OTHER -> 4
AlignOf(t) == CASE t = 1 -> 1 [] t = 2 -> 2 [] t = 3 -> 1 [] OTHER -> 4
Cells(a, t, n) == a..(a + n * SizeOf(t) - 1)
CellsOf(b) == IF b = <<>> THEN {} ELSE Cells(b[3], b[1], b[2])
Used == UNION ({ CellsOf(blk[c]) : c \in Slots } \cup { CellsOf(b) : b \in own })
Places(t, n) == { a \in 0..(H - 1) : a % AlignOf(t) = 0 /\ Cells(a, t, n) \subseteq 0..(H - 1) /\ Cells(a, t, n) \cap Used = {} }
Idle == want = 0 /\ own = {}

Init == /\ blk = [c \in Slots |-> <<>>] /\ mem = [a \in 0..(H - 1) |-> 0]
        /\ own = {} /\ want = 0 /\ told = "none"

Write(m, cells, c) == [a \in DOMAIN m |-> IF a \in cells THEN c ELSE m[a]]
Alloc(c, t, n) ==
    /\ Idle /\ blk[c] = <<>>
    /\ \E a \in Places(t, n) : blk' = [blk EXCEPT ![c] = <<t, n, a>>] /\ mem' = Write(mem, Cells(a, t, n), c)
    /\ UNCHANGED <<own, want>> /\ told' = "none"
Refuse(c) == Idle /\ blk[c] = <<>> /\ told' = "bad_alloc" /\ UNCHANGED <<blk, mem, own, want>>
Dealloc(c) == Idle /\ blk[c] # <<>> /\ blk' = [blk EXCEPT ![c] = <<>>] /\ told' = "none" /\ mem' = Write(mem, CellsOf(blk[c]), 0) /\ UNCHANGED <<own, want>>
ClientStart == Idle /\ \E k \in 1..MaxTake : want' = k /\ told' = "none" /\ UNCHANGED <<blk, mem, own>>
ClientTake ==
    /\ want > 0 /\ want' = want - 1
    /\ \E t \in Types : \E a \in Places(t, 1) : own' = own \cup {<<t, 1, a>>} /\ mem' = Write(mem, Cells(a, t, 1), 99)
    /\ UNCHANGED <<blk, told>>
\* refused: the client keeps what it has and asks again later, or gives up
ClientRefused == want > 0 /\ told' = "bad_alloc" /\ want' \in {want, 0} /\ UNCHANGED <<blk, mem, own>>
ClientGive == want = 0 /\ \E b \in own : own' = own \ {b} /\ mem' = Write(mem, CellsOf(b), 0) /\ UNCHANGED <<blk, want, told>>
Next ==
    \/ \E c \in Slots : Refuse(c) \/ Dealloc(c) \/ \E t \in Types, n \in Counts : Alloc(c, t, n)
    \/ ClientStart \/ ClientTake \/ ClientRefused \/ ClientGive
Spec == Init /\ [][Next]_vars

TypeOK == \A c \in Slots : CellsOf(blk[c]) \subseteq 0..(H - 1)
Disjoint == \A c, d \in Slots : c # d => CellsOf(blk[c]) \cap CellsOf(blk[d]) = {}
OwnersApart == \A c \in Slots, b \in own : CellsOf(blk[c]) \cap CellsOf(b) = {}
Aligned == \A c \in Slots : blk[c] # <<>> => blk[c][3] % AlignOf(blk[c][1]) = 0
Intact == \A c \in Slots : \A a \in CellsOf(blk[c]) : mem[a] = c
Balanced == Idle => { a \in DOMAIN mem : mem[a] # 0 } = UNION { CellsOf(blk[c]) : c \in Slots }

\* every step of the heap is a step of the contract, or invisible there
A == INSTANCE NestlAllocator
AbsSt == [b |-> [c \in Slots |-> IF blk[c] = <<>> THEN <<>> ELSE <<blk[c][1], blk[c][2]>>]]
AOps == { [n |-> "alloc", c |-> c, x |-> <<t, n, 0>>, s |-> <<>>] : c \in Slots, t \in Types, n \in Counts }
   \cup { [n |-> "dealloc", c |-> c, x |-> <<0>>, s |-> <<>>] : c \in Slots }
AbsStep ==
    \E op \in AOps : A!Pre(AbsSt, op) /\
        \E r \in A!Results(AbsSt, op) \cup A!FailResults(AbsSt, op) : r.st = AbsSt' /\ r.err = told'
Refines == [][AbsSt' # AbsSt => AbsStep]_vars
\* ranges as the traces record them: addresses are pairs <<address div 2^20, address mod 2^20>>
M == 1048576
Norm(p) == <<p[1] + p[2] \div M, p[2] % M>>
Plus(p, d) == Norm(<<p[1], p[2] + d>>)
Leq(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
Apart(p, pe, q, qe) == Leq(pe, q) \/ Leq(qe, p)
=============================================================================
