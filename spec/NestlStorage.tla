---------------------------- MODULE NestlStorage ----------------------------
(* What the containers and shared_ptr may do with memory and with the objects *)
(* in it, one event at a time:                                                *)
(*    alloc    a block b of m objects is taken from the allocator o           *)
(*    dealloc  block b is given back to allocator o with count m              *)
(*    ctor     an object comes to life at offset k of block b                 *)
(*    init     its two-phase initialisation succeeded / initfail: failed      *)
(*    use      it is read, compared, assigned or moved from                   *)
(*    dtor     it ceases to exist                                             *)
(* and what a container must own whenever no call is in progress (Quiet) and  *)
(* when nothing is left (Ended).  Which of these events a call makes, and how *)
(* many, is the implementation's business; every order NOT ruled out here is  *)
(* fine.                                                                      *)
EXTENDS NestlBase

\* heap: block -> [o, m, cells], cells: offset -> "raw" (constructed), "full" (initialised, used), "bad" (initialisation failed)
NoCells == <<>>
EmptyHeap == <<>>
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Alive(h, b, k) == b \in DOMAIN h /\ k \in DOMAIN h[b].cells
LiveCells(h) == UNION { { <<b, k>> : k \in DOMAIN h[b].cells } : b \in DOMAIN h }
Set(h, b, k, s) == [h EXCEPT ![b].cells = With(@, k, s)]

\* "" or the clause the event breaks
Wrong(h, e) ==
    CASE e.e = "alloc"    -> IF e.b \in DOMAIN h THEN "lifetime" ELSE ""
      [] e.e = "dealloc"  -> IF e.b \notin DOMAIN h THEN "lifetime"
                             ELSE IF h[e.b].o # e.o THEN "allocator"
                             ELSE IF h[e.b].m # e.m THEN "lifetime"
                             ELSE IF h[e.b].cells # NoCells THEN "lifetime" ELSE ""
      [] e.e = "ctor"     -> IF e.b \notin DOMAIN h \/ Alive(h, e.b, e.k) THEN "lifetime" ELSE ""
      [] e.e \in {"init", "initfail"}
                          -> IF Alive(h, e.b, e.k) /\ h[e.b].cells[e.k] = "raw" THEN "" ELSE "lifetime"
      [] e.e = "use"      -> IF Alive(h, e.b, e.k) /\ h[e.b].cells[e.k] # "bad" THEN "" ELSE "lifetime"
      [] e.e = "dtor"     -> IF Alive(h, e.b, e.k) THEN "" ELSE "lifetime"
      [] OTHER            -> "contents"
After(h, e) ==
    CASE e.e = "alloc"    -> With(h, e.b, [o |-> e.o, m |-> e.m, cells |-> NoCells])
      [] e.e = "dealloc"  -> Without(h, e.b)
      [] e.e = "ctor"     -> Set(h, e.b, e.k, "raw")
      [] e.e = "init"     -> Set(h, e.b, e.k, "full")
      [] e.e = "initfail" -> Set(h, e.b, e.k, "bad")
      [] e.e = "use"      -> Set(h, e.b, e.k, "full")
      [] e.e = "dtor"     -> [h EXCEPT ![e.b].cells = Without(@, e.k)]
      [] OTHER            -> h

(* No call in progress.  Q: for every container <<allocator, capacity or -1,  *)
(* its elements as <<block, offset>>>>; tracked: 0 when the element type is   *)
(* trivial, so that only blocks can be watched.                               *)
Elems(Q) == UNION { Range(Q[c][3]) : c \in 1..Len(Q) }
\* at most so many blocks of o: one per contiguous container (an empty one may keep it), one per element otherwise
Held(Q, o) == LET n(c) == IF Q[c][1] # o THEN 0 ELSE IF Q[c][2] >= 0 THEN 1 ELSE Len(Q[c][3])
              IN n(1) + n(2)
Owners(h) == { h[b].o : b \in DOMAIN h }
QuietWrong(h, Q, tracked) ==
    IF \E c \in 1..Len(Q) : \E x \in Range(Q[c][3]) : x[1] \notin DOMAIN h THEN "lifetime"
    ELSE IF \E c \in 1..Len(Q) : \E x \in Range(Q[c][3]) : h[x[1]].o # Q[c][1] THEN "allocator"
    ELSE IF Cardinality(Elems(Q)) # Len(Q[1][3]) + Len(Q[2][3]) THEN "lifetime"                  \* nothing is in two places
    ELSE IF tracked = 1 /\ Elems(Q) \ LiveCells(h) # {} THEN "lifetime"                           \* every element is alive
    ELSE IF tracked = 1 /\ LiveCells(h) \ Elems(Q) # {} THEN "leak"                               \* and nothing else is
    ELSE IF \E x \in LiveCells(h) : h[x[1]].cells[x[2]] = "bad" THEN "lifetime"
    ELSE IF \E o \in Owners(h) : Cardinality({ b \in DOMAIN h : h[b].o = o }) > Held(Q, o) THEN "leak"
    ELSE IF \E c \in 1..Len(Q) : Q[c][2] > 0 /\ Q[c][3] # <<>>                                    \* contiguous: one block, large enough
              /\ (Cardinality({ x[1] : x \in Range(Q[c][3]) }) # 1 \/ h[Q[c][3][1][1]].m < Q[c][2]) THEN "lifetime"
    ELSE ""

Ended(h) == IF LiveCells(h) # {} THEN "leak" ELSE IF h # EmptyHeap THEN "leak" ELSE ""
=============================================================================
