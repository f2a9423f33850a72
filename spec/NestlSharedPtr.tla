--------------------------- MODULE NestlSharedPtr ---------------------------
(***************************************************************************)
(* Contract of nestl::shared_ptr / weak_ptr / make_shared.                  *)
(*                                                                          *)
(* Objects (and their bookkeeping blocks) are numbered 1..N, 0 is "none".   *)
(* st.s[i]   what the i-th shared_ptr<Node> owns                            *)
(* st.b      what the shared_ptr<Base> owns (converted from Node)           *)
(* st.w[i]   which block the i-th weak_ptr<Node> observes                   *)
(* st.nx[o]  what the shared_ptr member of object o owns                    *)
(* st.wk[o]  which block the weak_ptr member of object o observes           *)
(* (0 for dead objects)                                                     *)
(*                                                                          *)
(* Operations name places: i = s[i], 10 = b, 20+i = w[i], 30+i = the nx     *)
(* member of the object s[i] owns, 40+i = the wk member of that object,     *)
(* 50+o = the nx member of object o, however o is kept alive (by itself,    *)
(* say, so that the pointer dies with the object it gives up).              *)
(*                                                                          *)
(* Destroying an object runs its destructor, which locks its own wk member  *)
(* and reports what it got; ret lists <<object, locked>> pairs in order of  *)
(* destruction, so ret also says which objects die, when, and how often.    *)
(***************************************************************************)
EXTENDS NestlBase

NObj(st) == Len(st.nx)
Objs(st) == 1..NObj(st)

Owners(st, o) ==
      Cardinality({ i \in 1..Len(st.s) : st.s[i] = o })
    + (IF st.b = o THEN 1 ELSE 0)
    + Cardinality({ p \in Objs(st) : st.nx[p] = o })
Alive(st, o) == o # 0 /\ Owners(st, o) > 0
Watched(st, o) == (\E i \in 1..Len(st.w) : st.w[i] = o) \/ (\E p \in Objs(st) : st.wk[p] = o)
\* the bookkeeping block exists while there is an owner or an observer
Block(st, o) == Alive(st, o) \/ Watched(st, o)
Free(st) == { o \in Objs(st) : ~Block(st, o) }
NewId(st) == CHOOSE o \in Free(st) : \A p \in Free(st) : o <= p

------------------------------------------------------------------------------
\* places
Kind(p) == p \div 10            \* 0 shared, 1 base, 2 weak, 3 and 5 nx member, 4 wk member
Via(p) == p % 10                \* slot index
IsShared(p) == Kind(p) \in {0, 1, 3, 5}
Defined(st, p) == (Kind(p) \in {3, 4} => st.s[Via(p)] # 0) /\ (Kind(p) = 5 => Alive(st, Via(p)))
\* members are addressed through the slot as it is when the call is made
Loc(st, p) ==
    CASE Kind(p) = 0 -> <<"s", Via(p)>>
      [] Kind(p) = 1 -> <<"b", 0>>
      [] Kind(p) = 2 -> <<"w", Via(p)>>
      [] Kind(p) = 3 -> <<"nx", st.s[Via(p)]>>
      [] Kind(p) = 4 -> <<"wk", st.s[Via(p)]>>
      [] Kind(p) = 5 -> <<"nx", Via(p)>>
Get(st, l) ==
    CASE l[1] = "s" -> st.s[l[2]]
      [] l[1] = "b" -> st.b
      [] l[1] = "w" -> st.w[l[2]]
      [] l[1] = "nx" -> st.nx[l[2]]
      [] l[1] = "wk" -> st.wk[l[2]]
Set(st, l, o) ==
    CASE l[1] = "s" -> [st EXCEPT !.s[l[2]] = o]
      [] l[1] = "b" -> [st EXCEPT !.b = o]
      [] l[1] = "w" -> [st EXCEPT !.w[l[2]] = o]
      [] l[1] = "nx" -> [st EXCEPT !.nx[l[2]] = o]
      [] l[1] = "wk" -> [st EXCEPT !.wk[l[2]] = o]
Val(st, p) == Get(st, Loc(st, p))

Locked(st, o) == IF Alive(st, o) THEN o ELSE 0

\* an owner of o has just gone: destroy o if it was the last one, then what o owned
RECURSIVE Released(_, _)
Released(st, o) ==
    IF o = 0 \/ Owners(st, o) > 0 THEN [st |-> st, dead |-> <<>>]
    ELSE LET got == Locked(st, st.wk[o])
             n == st.nx[o]
             r == Released([st EXCEPT !.wk[o] = 0, !.nx[o] = 0], n)
         IN [st |-> r.st, dead |-> <<o, got>> \o r.dead]

\* place l takes the value o and gives up what it had
Assign(st, l, o) ==
    LET old == Get(st, l)
        s1 == Set(st, l, o)
    IN IF l[1] \in {"w", "wk"} THEN [st |-> s1, dead |-> <<>>] ELSE Released(s1, old)

------------------------------------------------------------------------------
Makes == {"make0", "make1", "make_nx", "make_nxmv", "make_copy"}
\* calls which only look: temporaries made and dropped again
Peeks == {"tmp_copies", "tmp_weaks", "tmp_weak", "tmp_lock", "base_lock", "const_copy", "self_swap"}

\* sharing from p, as a (converting) copy does: weak places are read through the block they observe
Results(st, op) ==
    LET n == op.n
        dst == op.x[1]
        src == op.x[2]
        res(r, pre) == { [st |-> r.st, ret |-> pre \o r.dead] }
        L == Loc(st, dst)
        M == Loc(st, src)
    IN CASE n \in {"copy", "cctor", "wcopy", "wcctor"} -> res(Assign(st, L, Get(st, M)), <<>>)
         [] n \in {"move", "wmove"} ->
              IF L = M
              THEN \* self move: unchanged, or emptied
                   res([st |-> st, dead |-> <<>>], <<>>) \cup res(Assign(st, L, 0), <<>>)
              ELSE res(Assign(Set(st, M, 0), L, Get(st, M)), <<>>)
         [] n \in {"mctor", "wmctor"} -> res(Assign(Set(st, M, 0), L, Get(st, M)), <<>>)
         [] n \in {"reset", "null", "nctor", "wreset", "wnctor"} -> res(Assign(st, L, 0), <<>>)
         [] n = "swap" -> res([st |-> Set(Set(st, L, Get(st, M)), M, Get(st, L)), dead |-> <<>>], <<>>)
         [] n \in {"lock", "lock_ctor"} -> res(Assign(st, L, Locked(st, Get(st, M))), <<>>)
         [] n \in Makes ->
              IF Free(st) = {} THEN {}
              ELSE LET o == NewId(st)
                       s0 == IF n = "make_nxmv" THEN Set(st, M, 0) ELSE st
                       nx == CASE n \in {"make_nx", "make_nxmv"} -> Get(st, M)
                               [] n = "make_copy" -> st.nx[Get(st, M)]
                               [] OTHER -> 0
                       s1 == [s0 EXCEPT !.nx[o] = nx]
                   IN \* one allocation, then the new object replaces what the place owned
                      res(Assign(s1, L, o), <<1>>)
         \* looking: the number of owners seen while the temporaries exist, and afterwards
         [] n = "tmp_copies" -> { [st |-> st, ret |-> <<IF Val(st, dst) = 0 THEN 0 ELSE Owners(st, Val(st, dst)) + op.x[2],
                                                       IF Val(st, dst) = 0 THEN 0 ELSE Owners(st, Val(st, dst))>>] }
         \* op.x[2] observers made and dropped again
         [] n = "tmp_weaks" -> { [st |-> st, ret |-> IF Alive(st, Val(st, dst)) THEN <<Owners(st, Val(st, dst)), Owners(st, Val(st, dst))>> ELSE <<0, 0>>] }
         [] n = "const_copy" -> { [st |-> st, ret |-> <<IF Val(st, dst) = 0 THEN 0 ELSE Owners(st, Val(st, dst)) + 1>>] }
         [] n = "tmp_weak" -> { [st |-> st, ret |-> <<IF Alive(st, Val(st, dst)) THEN Owners(st, Val(st, dst)) ELSE 0>>] }
         [] n = "tmp_lock" -> { [st |-> st, ret |-> <<Locked(st, Val(st, dst)), IF Alive(st, Val(st, dst)) THEN Owners(st, Val(st, dst)) + 1 ELSE 0>>] }
         [] n = "base_lock" -> { [st |-> st, ret |-> <<st.b>>] }
         [] n = "self_swap" -> { [st |-> st, ret |-> <<>>] }
         [] OTHER -> {}

MayFail(op) == op.n \in Makes
Pure(op) == op.n \notin Makes
\* a failed make_shared changes nothing: empty result, no object, no block
FailOuts(st, op, f) == IF MayFail(op) THEN { st } ELSE {}
ErrOf(f) == CASE f = "none" -> "none" [] f = "alloc" -> "bad_alloc" [] f = "elem" -> "elem"

------------------------------------------------------------------------------
\* is this a call a program may make in st?
Pre(st, op) ==
    LET n == op.n
        dst == op.x[1]
        src == op.x[2]
        slot(p) == Kind(p) \in {0, 1, 2}
        sameType == (Kind(dst) \in {0, 3, 5} /\ Kind(src) \in {0, 3, 5}) \/ (Kind(dst) = 1 /\ Kind(src) = 1)
        \* the source is not a member of the object the destination keeps alive (constructors first end the old pointer)
        apart == Loc(st, dst) # Loc(st, src) /\ ~(Kind(src) \in {3, 4} /\ Kind(dst) = 0 /\ Via(src) = Via(dst))
                 /\ (Kind(src) \in {3, 4} => \E i \in 1..Len(st.s) : i # (IF Kind(dst) = 0 THEN Via(dst) ELSE 0) /\ st.s[i] = st.s[Via(src)])
    IN /\ Defined(st, dst)
       /\ (n \notin {"reset", "null", "nctor", "wreset", "wnctor", "make0", "make1", "tmp_copies", "tmp_weaks", "const_copy", "tmp_weak", "tmp_lock", "base_lock", "self_swap"} => Defined(st, src))
       /\ CASE n \in {"copy", "move"} -> IsShared(dst) /\ IsShared(src) /\ (Kind(src) = 1 => Kind(dst) = 1)
            [] n = "cctor" -> Kind(dst) \in {0, 1} /\ IsShared(src) /\ Kind(src) # 5 /\ (Kind(src) = 1 => Kind(dst) = 1) /\ apart
            [] n = "mctor" -> Kind(dst) \in {0, 1} /\ Kind(src) # 5 /\ sameType /\ apart
            [] n = "swap" -> sameType
            [] n \in {"reset", "null"} -> IsShared(dst)
            [] n = "nctor" -> Kind(dst) \in {0, 1}
            [] n = "wcopy" -> ~IsShared(dst) /\ Kind(src) # 1
            [] n = "wmove" -> ~IsShared(dst) /\ ~IsShared(src)
            [] n = "wcctor" -> Kind(dst) = 2 /\ Kind(src) # 1 /\ Loc(st, dst) # Loc(st, src)
            [] n = "wmctor" -> Kind(dst) = 2 /\ ~IsShared(src) /\ Loc(st, dst) # Loc(st, src)
            [] n = "wreset" -> ~IsShared(dst)
            [] n = "wnctor" -> Kind(dst) = 2
            [] n = "lock" -> IsShared(dst) /\ ~IsShared(src)
            [] n = "lock_ctor" -> Kind(dst) = 0 /\ ~IsShared(src) /\ apart
            [] n \in {"make0", "make1"} -> IsShared(dst)
            [] n \in {"make_nx", "make_nxmv"} -> IsShared(dst) /\ Kind(src) \in {0, 3}
            [] n = "make_copy" -> IsShared(dst) /\ Kind(src) \in {0, 3} /\ Val(st, src) # 0
            [] n \in {"tmp_copies", "const_copy", "self_swap"} -> Kind(dst) \in {0, 3}
            [] n \in {"tmp_weak", "tmp_weaks"} -> Kind(dst) # 1
            [] n = "tmp_lock" -> ~IsShared(dst)
            [] n = "base_lock" -> dst = 10
            [] OTHER -> FALSE

------------------------------------------------------------------------------
\* what can be seen from outside.  Expired observers are shown negated: which block they hold is not visible
Sign(st, o) == IF o = 0 \/ Alive(st, o) THEN o ELSE 0 - o
View(st) ==
    [s |-> st.s, b |-> st.b, nx |-> st.nx,
     w |-> [i \in 1..Len(st.w) |-> Sign(st, st.w[i])],
     wk |-> [o \in Objs(st) |-> Sign(st, st.wk[o])],
     live |-> [o \in Objs(st) |-> IF Alive(st, o) THEN 1 ELSE 0],
     blk |-> [o \in Objs(st) |-> IF Block(st, o) THEN 1 ELSE 0],
     uc |-> [o \in Objs(st) |-> Owners(st, o)]]
=============================================================================
