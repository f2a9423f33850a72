--------------------------- MODULE NestlAllocator ---------------------------
(* Contract of the default allocator, nestl::allocator, and of the owners     *)
(* which use it.  The state maps slots to the blocks a program holds: <<>> or *)
(* <<type, n>>, a block for n objects of that type which keeps what was       *)
(* written to it.  The heap below it may refuse any request.                  *)
(*   alloc    <<t, n, via>>  slot c receives a block; via: which instance     *)
(*                           (or allocator_traits, a converted or rebound     *)
(*                           copy) is asked                                   *)
(*   alloc_huge <<t, k, via>> a request no heap can serve (k: how it is one)  *)
(*   dealloc  <<via>>        the block of slot c is returned                  *)
(*   rewrite  <<>>           the whole block of slot c is written again       *)
(*   client   <<kind, n>>    a container or shared_ptr with default allocator *)
(*                           is filled with n elements, step by step; when a  *)
(*                           step fails its error is noted and the step       *)
(*                           repeated; then the owner is destroyed            *)
EXTENDS NestlBase
CONSTANT Slots

Free == <<>>
SlotsIn(s) == { c \in Slots : s.b[c] # Free }
Put(s, c, v) == [s EXCEPT !.b[c] = v]

HeapOps == {"alloc", "client"}           \* ask the heap
Pre(s, op) ==
    CASE op.n \in {"alloc", "alloc_huge"} -> s.b[op.c] = Free
      [] op.n \in {"dealloc", "rewrite"} -> s.b[op.c] # Free
      [] OTHER -> TRUE

R(s, ret, err) == [st |-> s, ret |-> ret, err |-> err]
\* nothing was refused
Results(s, op) ==
    CASE op.n = "alloc" -> { R(Put(s, op.c, <<op.x[1], op.x[2]>>), <<>>, "none") }
      [] op.n = "alloc_huge" -> { R(s, <<>>, "bad_alloc") }
      [] op.n = "dealloc" -> { R(Put(s, op.c, Free), <<>>, "none") }
      [] op.n = "rewrite" -> { R(s, <<>>, "none") }
      [] op.n = "client" -> { R(s, <<op.x[2]>>, "none") }
\* one request was refused: the caller is told, and holds what it held before
FailResults(s, op) ==
    CASE op.n = "alloc" -> { R(s, <<>>, "bad_alloc") }
      [] op.n = "client" -> { R(s, <<op.x[2]>>, "bad_alloc") }
      [] OTHER -> {}
\* operations which may not ask the heap at all
Pure(op) == op.n \in {"dealloc", "rewrite"}
=============================================================================
