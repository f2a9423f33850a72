------------------------------ MODULE TraceModes ------------------------------
(* Two recordings of the same history of calls, made by two builds of the     *)
(* library: every step has to be the same step.  The comparison is on what    *)
(* the contract makes observable; how often an allocator is asked or an       *)
(* element is copied on the way is not part of it.                            *)
EXTENDS NestlBase, Json, IOUtils
A == ndJsonDeserialize(IOEnv.TRACE)
B == ndJsonDeserialize(IOEnv.TRACE2)
Unobserved == {"na", "made", "moved", "cap", "o1", "o2", "cmp"}
VARIABLE l
Obs(e) == [k \in DOMAIN e \ Unobserved |-> e[k]]
Get(e, k) == IF k \in DOMAIN e THEN e[k] ELSE "absent"
Same(a, b) ==
    /\ Check(\A k \in {"n", "c", "x", "s"} : Get(a, k) = Get(b, k), "mode-history")
    /\ Check(Get(a, "f") = Get(b, "f"), "mode-failure")
    /\ Check(Get(a, "err") = Get(b, "err"), "mode-error")
    /\ Check(Obs(a) = Obs(b), "mode-contents")
Init == l = 1
Next == l <= Len(A) /\ l <= Len(B) /\ Same(A[l], B[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted ==
    IF TLCGet("stats").diameter - 1 = Len(A) /\ Len(A) = Len(B) THEN TRUE
    ELSE PrintT("@@STUCK " \o ToString(TLCGet("stats").diameter)) /\ FALSE
===============================================================================
