---------------------------- MODULE NestlAlgorithm ----------------------------
(***************************************************************************)
(* Contract of nestl's algorithms: copy, copy_if, equal and                 *)
(* lexicographical_compare over two ranges, the source q[1] and the         *)
(* destination (or second range) q[2].                                      *)
(*                                                                          *)
(* copy and copy_if are made of single assignments; the j-th may fail       *)
(* (f = "elem"), which stops them there: Run(st, op, j) is the state after  *)
(* j assignments.  The comparisons cannot fail and change nothing.          *)
(***************************************************************************)
EXTENDS NestlBase

\* The suffix names the kinds of iterators the harness uses; it makes no difference to the contract.
CopyOps   == {"copy", "copy_in", "copy_bi", "copy_nestl", "copy_conv", "copy_mv", "copy_fn"}
CopyIfOps == {"copy_if", "copy_if_in", "copy_if_bi", "copy_if_nestl", "copy_if_fn"}
OutOps    == {"copy_out", "copy_if_out"}                \* the destination is an output iterator: q[2] is what it received
WriteOps  == CopyOps \cup CopyIfOps \cup OutOps \cup {"copy_left"}
EqualOps  == {"equal", "equal_in", "equal_nestl"}
EqualPOps == {"equal_p", "equal_p_in", "equal_p_nestl"}
LexOps    == {"lex", "lex_in", "lex_nestl"}
LexPOps   == {"lex_p", "lex_p_in", "lex_p_nestl"}

\* binary predicates given to equal (x[1]) and orderings given to lexicographical_compare
Pred(k, a, b) == CASE k = 0 -> a = b
                   [] k = 1 -> a <= b                   \* not symmetric: the argument order matters
                   [] k = 2 -> a % 2 = b % 2            \* coarser than equality
                   [] k = 3 -> a # b
Less(k, a, b) == CASE k = 0 -> a < b
                   [] k = 1 -> a > b
                   [] k = 2 -> a \div 2 < b \div 2      \* a strict weak order with equivalent but different values
                   [] k = 3 -> FALSE

\* elements selected by copy_if: bit v of the mask x[1]
RECURSIVE Bit(_, _)
Bit(m, i) == IF i = 0 THEN m % 2 = 1 ELSE Bit(m \div 2, i - 1)
Selected(q, m) == SelectSeq(q, LAMBDA v : Bit(m, v))

\* what is written, from which position of which range on
Written(st, op) ==
    CASE op.n \in CopyOps \cup {"copy_out"} -> st.q[1]
      [] op.n \in CopyIfOps \cup {"copy_if_out"} -> Selected(st.q[1], op.x[1])
      [] op.n = "copy_left" -> Drop(st.q[1], op.x[1])
      [] OTHER -> <<>>
Dest(op) == IF op.n = "copy_left" THEN 1 ELSE 2
Overwrite(q, w) == w \o Drop(q, Len(w))

\* Caller's obligations: room in the destination, as many elements in the second range of equal.
Pre(st, op) ==
    CASE op.n \in CopyOps \cup CopyIfOps -> Len(Written(st, op)) <= Len(st.q[2])
      [] op.n = "copy_left" -> op.x[1] <= Len(st.q[1])
      [] op.n \in EqualOps \cup EqualPOps -> Len(st.q[1]) <= Len(st.q[2])
      [] OTHER -> TRUE

\* after j assignments
Run(st, op, j) ==
    IF op.n \in OutOps THEN [st EXCEPT !.q[2] = Take(Written(st, op), j)]
    ELSE [st EXCEPT !.q[Dest(op)] = Overwrite(@, Take(Written(st, op), j))]

AllEqual(k, a, b) == \A i \in 1..Len(a) : Pred(k, a[i], b[i])
RECURSIVE LexLess(_, _, _)
LexLess(k, a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF Less(k, Head(a), Head(b)) THEN TRUE
    ELSE IF Less(k, Head(b), Head(a)) THEN FALSE
    ELSE LexLess(k, Tail(a), Tail(b))

B01(b) == IF b THEN <<1>> ELSE <<0>>
RetAt(op, j) == <<j>>
Results(st, op) ==
    CASE op.n \in WriteOps -> LET n == Len(Written(st, op)) IN { [st |-> Run(st, op, n), ret |-> RetAt(op, n)] }
      [] op.n \in EqualOps -> { [st |-> st, ret |-> B01(AllEqual(0, st.q[1], st.q[2]))] }
      [] op.n \in EqualPOps -> { [st |-> st, ret |-> B01(AllEqual(op.x[1], st.q[1], st.q[2]))] }
      [] op.n \in LexOps -> { [st |-> st, ret |-> B01(LexLess(0, st.q[1], st.q[2]))] }
      [] op.n \in LexPOps -> { [st |-> st, ret |-> B01(LexLess(op.x[1], st.q[1], st.q[2]))] }
\* the assignment after j successful ones fails
FailResults(st, op) ==
    IF op.n \in WriteOps THEN { [st |-> Run(st, op, j), ret |-> RetAt(op, j)] : j \in 0..(Len(Written(st, op)) - 1) } ELSE {}
ErrOf(f) == IF f = "elem" THEN "elem" ELSE IF f = "alloc" THEN "bad_alloc" ELSE "none"
=============================================================================
