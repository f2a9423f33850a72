------------------------------ MODULE NestlError ------------------------------
(***************************************************************************)
(* Contract of the error objects themselves.  A slot holds one failure:     *)
(*   0 none, 1 bad_alloc, 2 length, 3.. a failure raised by an element      *)
(*     (each number is another exception, or another code).                 *)
(* An error object is a value: whatever was reported last stays until the   *)
(* next report, copies are independent and carry exactly the same failure,  *)
(* and throwing it throws exactly that failure.                             *)
(***************************************************************************)
EXTENDS NestlBase

BuildOps == {"bad_alloc", "length"}
KindOps  == {"value_ctor", "from_exception", "from_exception_ptr", "assign_value"}  \* x[1]: the failure
SlotOps  == {"copy_ctor", "assign", "from_value", "report_value"}                     \* x[1]: the other slot
MoveOps  == {"move_ctor", "move_assign"}
AskOps   == {"bool", "kind", "throw", "throw_twice"}
NullOps  == {"default_ctor", "assign_default"}

Pre(st, op) ==
    CASE op.n \in {"throw", "throw_twice"} -> st.e[op.c] # 0
      [] op.n \in {"copy_ctor", "move_ctor", "move_assign"} -> op.x[1] # op.c
      [] op.n = "report_value" -> st.e[op.x[1]] # 0      \* reporting "nothing" is not a failure
      [] OTHER -> TRUE

R(s, r) == [st |-> s, ret |-> r]
Results(st, op) ==
    CASE op.n \in NullOps -> { R([st EXCEPT !.e[op.c] = 0], <<>>) }
      [] op.n = "bad_alloc" -> { R([st EXCEPT !.e[op.c] = 1], <<>>) }
      [] op.n = "length" -> { R([st EXCEPT !.e[op.c] = 2], <<>>) }
      [] op.n \in KindOps -> { R([st EXCEPT !.e[op.c] = op.x[1]], <<>>) }
      [] op.n \in SlotOps -> { R([st EXCEPT !.e[op.c] = st.e[op.x[1]]], <<>>) }
      [] op.n \in MoveOps -> { R([st EXCEPT !.e[op.c] = st.e[op.x[1]], !.e[op.x[1]] = k], <<>>) : k \in {0, st.e[op.x[1]]} }
      [] op.n = "bool" -> { R(st, <<IF st.e[op.c] = 0 THEN 0 ELSE 1>>) }
      [] op.n \in {"kind", "throw"} -> { R(st, <<st.e[op.c]>>) }
      [] op.n = "throw_twice" -> { R(st, <<st.e[op.c], st.e[op.c]>>) }
=============================================================================
