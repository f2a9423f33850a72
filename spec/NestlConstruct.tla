---------------------------- MODULE NestlConstruct ----------------------------
(* The construction protocol every nestl component follows to build one       *)
(* object from arguments: directly when the type allows it, otherwise by      *)
(* default construction followed by exactly one two-phase initialisation, with*)
(* the object destroyed again when initialisation fails.                      *)
(* A profile says what the type offers:                                       *)
(*   d  constructor from the arguments: "none", "nothrow" or "throw"          *)
(*   m  the categories of the first argument that constructor accepts         *)
(*   f  default constructor: "none", "nothrow" or "throw"                     *)
(*   i  whether a two_phase_initializator exists                              *)
(* Arguments are categories: "c" const lvalue, "l" lvalue, "r" rvalue.        *)
(* The context is where the object is built: raw storage, or storage which    *)
(* the caller allocates first (a container node, a shared_ptr block).  A      *)
(* relocating context (vector) may also build the object in a temporary,      *)
(* allocate afterwards and move it to its final place; the log follows the    *)
(* object, so relocation itself is not an event.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Kinds,       \* constructor kinds which exist ("throw" only with exceptions)
          Contexts, Relocating, ArgLists, Masks
VARIABLES prof, args, ctx, late, k, pc, log, err, alive, block, reports
vars == <<prof, args, ctx, late, k, pc, log, err, alive, block, reports>>

Profiles == [d : {"none"} \cup Kinds, m : Masks, f : {"none"} \cup Kinds, i : BOOLEAN]

\* what is_constructible<T, Args...> says
Direct(p, a) == IF a = <<>> THEN p.f ELSE IF a[1] \in p.m THEN p.d ELSE "none"
Buildable(p, a) == Direct(p, a) # "none" \/ (p.f # "none" /\ p.i)
\* one canonical mask where it is irrelevant
Canonical(p) == p.d = "none" => p.m = {"c", "l", "r"}

\* k counts down over the steps which can fail; the k-th one fails, 0: none does
Fails == k = 1
Tick == k' = IF k = 0 THEN 0 ELSE k - 1
CanFail(kind) == kind = "throw"

Init ==
    /\ prof \in { p \in Profiles : Canonical(p) }
    /\ args \in ArgLists /\ ctx \in Contexts
    /\ Buildable(prof, args)
    /\ k \in 0..4
    /\ late \in IF ctx \in Relocating THEN BOOLEAN ELSE {FALSE}
    /\ pc = IF ctx = "raw" \/ late THEN "construct" ELSE "allocate"
    /\ log = <<>> /\ err = "none" /\ alive = FALSE /\ block = FALSE /\ reports = 0

Report(e) == err' = e /\ reports' = reports + 1
Quiet == UNCHANGED <<err, reports>>
Frame == UNCHANGED <<prof, args, ctx, late>>
Event(n, a) == log' = Append(log, <<n, a>>)

Allocate ==
    /\ pc = "allocate" /\ Frame /\ Tick
    /\ IF Fails THEN Report("bad_alloc") /\ pc' = (IF late THEN "destroy" ELSE "end") /\ UNCHANGED <<block, alive, log>>
                ELSE Quiet /\ block' = TRUE /\ pc' = (IF late THEN "owned" ELSE "construct") /\ UNCHANGED <<alive, log>>

\* a constructor call: kind says whether it can fail, next is where a success leads
Construct(name, a, kind, next) ==
    IF CanFail(kind) /\ Fails
    THEN Event(name \o "!", a) /\ Report("elem") /\ pc' = "release" /\ Tick /\ UNCHANGED <<alive, block>>
    ELSE /\ Event(name, a) /\ Quiet /\ alive' = TRUE /\ pc' = next /\ UNCHANGED block
         /\ IF CanFail(kind) THEN Tick ELSE UNCHANGED k

ConstructDirect ==
    /\ pc = "construct" /\ Frame /\ Direct(prof, args) # "none"
    /\ Construct(IF args = <<>> THEN "default" ELSE "direct", args, Direct(prof, args), "ready")

DefaultConstruct ==
    /\ pc = "construct" /\ Frame /\ Direct(prof, args) = "none"
    /\ Construct("default", <<>>, prof.f, "init")

Initialise ==
    /\ pc = "init" /\ Frame /\ Tick
    /\ IF Fails THEN Event("init!", args) /\ Report("elem") /\ pc' = "destroy" /\ UNCHANGED <<alive, block>>
                ELSE Event("init", args) /\ Quiet /\ pc' = "ready" /\ UNCHANGED <<alive, block>>

\* the object is built; its owner destroys it later
Ready == pc = "ready" /\ Frame /\ pc' = (IF late THEN "allocate" ELSE "owned") /\ Quiet /\ UNCHANGED <<alive, block, log, k>>
Owned == pc = "owned" /\ Frame /\ pc' = "destroy" /\ Quiet /\ UNCHANGED <<alive, block, log, k>>

Destroy ==
    /\ pc = "destroy" /\ Frame /\ Quiet /\ Event("dtor", <<>>)
    /\ alive' = FALSE /\ pc' = "release" /\ UNCHANGED <<block, k>>

Release == pc = "release" /\ Frame /\ Quiet /\ block' = FALSE /\ pc' = "end" /\ UNCHANGED <<alive, log, k>>

Next == Allocate \/ ConstructDirect \/ DefaultConstruct \/ Initialise \/ Ready \/ Owned \/ Destroy \/ Release
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-------------------------------------------------------------------------------
Names == [j \in DOMAIN log |-> log[j][1]]
Count(n) == Cardinality({ j \in DOMAIN log : log[j][1] = n })
Before(x, y) == \E i, j \in DOMAIN log : i < j /\ log[i][1] = x /\ log[j][1] = y

OneReport == reports <= 1 /\ (reports = 1 <=> err # "none")
DirectPreferred == Direct(prof, args) # "none" => Count("init") = 0 /\ Count("init!") = 0
InitOnce == Count("init") + Count("init!") <= 1
InitAfterDefault ==
    Count("init") + Count("init!") = 1 =>
        Names[1] = "default" /\ Names[2] \in {"init", "init!"} /\ log[2][2] = args
NothingAfterFailedConstruction ==
    (Count("direct!") + Count("default!") > 0) => Len(log) = 1
DestroyedOnce == Count("dtor") <= 1 /\ (alive <=> Count("direct") + Count("default") > Count("dtor"))
DestroyOnFailure == Before("init!", "dtor") \/ Count("init!") = 0 \/ pc = "destroy"
EndClean == pc = "end" => ~alive /\ ~block /\ (Count("direct") + Count("default") = Count("dtor"))
ErrIffFailed ==
    pc = "end" => (err = "elem" <=> Count("direct!") + Count("default!") + Count("init!") = 1)
                  /\ (err = "bad_alloc" => (log = <<>> \/ late))
                  /\ (log = <<>> => err = "bad_alloc")
OwnedOK == pc = "owned" => alive /\ err = "none" /\ (block <=> ctx # "raw")
Terminates == <>(pc = "end")
===============================================================================
