----------------------------- MODULE MCConstruct -----------------------------
(* All profiles, argument lists, contexts and failing steps; every complete   *)
(* behaviour is emitted and replayed into class_operations::construct, the    *)
(* containers and make_shared.                                                *)
EXTENDS NestlConstruct, Json
CONSTANT EmitTable
AllMasks == { {"c", "l", "r"}, {"r"}, {"c", "l"} }
AllArgs == { <<>>, <<"c">>, <<"l">>, <<"r">>, <<"c", "r">>, <<"r", "l">>, <<"l", "c">> }
\* k = 0 at the end: either nothing was to fail or the k-th step did
Emit == (EmitTable /\ pc = "end" /\ k = 0) =>
            PrintT("@@" \o ToJson([d |-> prof.d, m |-> prof.m, f |-> prof.f, i |-> prof.i, a |-> args, x |-> ctx, l |-> log, e |-> err]))
==============================================================================
