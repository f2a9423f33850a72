------------------------------- MODULE RbTree -------------------------------
(***************************************************************************)
(* Design model of the balanced tree behind nestl::set, shaped like         *)
(* rb_tree_insert_and_rebalance / rb_tree_rebalance_for_erase: nodes linked *)
(* by parent/left/right, one action per step of the rebalancing loops.      *)
(* A node is its key; 0 is both the null link and the header.               *)
(*                                                                          *)
(* Checked: between operations the red-black rules, the search order, the   *)
(* leftmost/rightmost caches and hence the height bound that C11 promises.  *)
(* For every reachable coloured shape TLC prints a shortest history of      *)
(* insertions (k) and erasures (-k); the harness drives the real set        *)
(* through each of them and through every operation enabled there.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, MaxSize, EmitTable
Keys == 1..N
Node == 0..N

VARIABLES root, lf, rt, pa, red, lm, rm, pc, x, xp, hist
vars == <<root, lf, rt, pa, red, lm, rm, pc, x, xp, hist>>
View == <<root, lf, rt, pa, red, lm, rm, pc, x, xp>>

Zero == [k \in Keys |-> 0]
Init == /\ root = 0 /\ lf = Zero /\ rt = Zero /\ pa = Zero /\ red = [k \in Keys |-> FALSE]
        /\ lm = 0 /\ rm = 0 /\ pc = "idle" /\ x = 0 /\ xp = 0 /\ hist = <<>>

T == [root |-> root, lf |-> lf, rt |-> rt, pa |-> pa, red |-> red]
IsRed(t, k) == k # 0 /\ t.red[k]
Set(t, f, k, v) == IF k = 0 THEN t
                   ELSE CASE f = "lf" -> [t EXCEPT !.lf[k] = v] [] f = "rt" -> [t EXCEPT !.rt[k] = v]
                          [] f = "pa" -> [t EXCEPT !.pa[k] = v] [] f = "red" -> [t EXCEPT !.red[k] = v]
\* replace child a of its parent by b (or the root)
Relink(t, a, b) ==
    IF t.root = a THEN [t EXCEPT !.root = b]
    ELSE IF t.lf[t.pa[a]] = a THEN Set(t, "lf", t.pa[a], b) ELSE Set(t, "rt", t.pa[a], b)
RotL(t, k) ==
    LET y == t.rt[k]
        a == Set(Set(t, "rt", k, t.lf[y]), "pa", t.lf[y], k)
        b == Set(Relink(a, k, y), "pa", y, t.pa[k])
    IN Set(Set(b, "lf", y, k), "pa", k, y)
RotR(t, k) ==
    LET y == t.lf[k]
        a == Set(Set(t, "lf", k, t.rt[y]), "pa", t.rt[y], k)
        b == Set(Relink(a, k, y), "pa", y, t.pa[k])
    IN Set(Set(b, "rt", y, k), "pa", k, y)
\* the mirrored cases share one definition: s = "l" as written, "r" with left and right exchanged
Kid(t, s, k) == IF s = "l" THEN t.lf[k] ELSE t.rt[k]
Opp(s) == IF s = "l" THEN "r" ELSE "l"
Rot(t, s, k) == IF s = "l" THEN RotL(t, k) ELSE RotR(t, k)
Use(t) == root' = t.root /\ lf' = t.lf /\ rt' = t.rt /\ pa' = t.pa /\ red' = t.red

RECURSIVE Members(_, _), Descend(_, _), MinOf(_, _), MaxOf(_, _)
Members(t, k) == IF k = 0 THEN {} ELSE {k} \cup Members(t, t.lf[k]) \cup Members(t, t.rt[k])
Descend(t, k) ==                       \* parent-to-be of a new key, searching from the root
    LET go[n \in Node] == LET m == IF k < n THEN t.lf[n] ELSE t.rt[n] IN IF m = 0 THEN n ELSE go[m] IN go[t.root]
MinOf(t, k) == IF t.lf[k] = 0 THEN k ELSE MinOf(t, t.lf[k])
MaxOf(t, k) == IF t.rt[k] = 0 THEN k ELSE MaxOf(t, t.rt[k])
Mem == Members(T, root)

Insert(k) ==
    /\ pc = "idle" /\ k \notin Mem /\ Cardinality(Mem) < MaxSize
    /\ LET p == IF root = 0 THEN 0 ELSE Descend(T, k)
           t0 == Set(Set(T, "pa", k, p), "red", k, TRUE)
           t == IF p = 0 THEN [t0 EXCEPT !.root = k] ELSE IF k < p THEN Set(t0, "lf", p, k) ELSE Set(t0, "rt", p, k)
       IN /\ Use(t)
          /\ lm' = IF p = 0 \/ (p = lm /\ k < p) THEN k ELSE lm
          /\ rm' = IF p = 0 \/ (p = rm /\ k > p) THEN k ELSE rm
    /\ pc' = "ifix" /\ x' = k /\ xp' = 0 /\ hist' = Append(hist, k)

InsFix ==
    /\ pc = "ifix"
    /\ IF x # root /\ red[pa[x]]
       THEN LET p == pa[x]
                g == pa[p]
                s == IF p = lf[g] THEN "l" ELSE "r"
                y == Kid(T, Opp(s), g)
            IN IF IsRed(T, y)
               THEN /\ Use(Set(Set(Set(T, "red", p, FALSE), "red", y, FALSE), "red", g, TRUE))
                    /\ x' = g /\ UNCHANGED pc
               ELSE LET inner == x = Kid(T, Opp(s), p)
                        n == IF inner THEN p ELSE x
                        t == IF inner THEN Rot(T, s, p) ELSE T
                        u == Set(Set(t, "red", t.pa[n], FALSE), "red", g, TRUE)
                    IN Use(Rot(u, Opp(s), g)) /\ x' = n /\ UNCHANGED pc
       ELSE Use(Set(T, "red", root, FALSE)) /\ pc' = "idle" /\ x' = 0
    /\ UNCHANGED <<lm, rm, xp, hist>>

Unlinked(t, z) == Set(Set(Set(Set(t, "lf", z, 0), "rt", z, 0), "pa", z, 0), "red", z, FALSE)

Erase(z) ==
    /\ pc = "idle" /\ z \in Mem
    /\ LET two == lf[z] # 0 /\ rt[z] # 0
           y == IF two THEN MinOf(T, rt[z]) ELSE z
           c == IF two THEN rt[y] ELSE IF lf[z] = 0 THEN rt[z] ELSE lf[z]
       IN IF two
          THEN LET t1 == Set(Set(T, "pa", lf[z], y), "lf", y, lf[z])
                   direct == y = rt[z]
                   cp == IF direct THEN y ELSE pa[y]
                   t2 == IF direct THEN t1
                         ELSE Set(Set(Set(Set(t1, "pa", c, pa[y]), "lf", pa[y], c), "rt", y, rt[z]), "pa", rt[z], y)
                   t3 == Set(Relink(t2, z, y), "pa", y, pa[z])
                   t4 == Set(t3, "red", y, red[z])
               IN /\ Use(Unlinked(t4, z))
                  /\ IF red[y] THEN pc' = "idle" /\ x' = 0 /\ xp' = 0 ELSE pc' = "efix" /\ x' = c /\ xp' = cp
                  /\ UNCHANGED <<lm, rm>>
          ELSE LET t1 == Set(T, "pa", c, pa[z])
                   t2 == Relink(t1, z, c)
               IN /\ Use(Unlinked(t2, z))
                  /\ IF red[z] THEN pc' = "idle" /\ x' = 0 /\ xp' = 0 ELSE pc' = "efix" /\ x' = c /\ xp' = pa[z]
                  /\ lm' = IF lm # z THEN lm ELSE IF rt[z] = 0 THEN pa[z] ELSE MinOf(T, c)
                  /\ rm' = IF rm # z THEN rm ELSE IF lf[z] = 0 THEN pa[z] ELSE MaxOf(T, c)
    /\ hist' = Append(hist, -z)

EraFix ==
    /\ pc = "efix"
    /\ IF x # root /\ ~IsRed(T, x)
       THEN LET s == IF x = lf[xp] THEN "l" ELSE "r"
                w0 == Kid(T, Opp(s), xp)
                t == IF red[w0] THEN Rot(Set(Set(T, "red", w0, FALSE), "red", xp, TRUE), s, xp) ELSE T
                w1 == Kid(t, Opp(s), xp)
                near == Kid(t, s, w1)
                far == Kid(t, Opp(s), w1)
            IN IF ~IsRed(t, near) /\ ~IsRed(t, far)
               THEN /\ Use(Set(t, "red", w1, TRUE))
                    /\ x' = xp /\ xp' = t.pa[xp] /\ UNCHANGED pc
               ELSE LET u == IF IsRed(t, far) THEN t ELSE Rot(Set(Set(t, "red", near, FALSE), "red", w1, TRUE), Opp(s), w1)
                        w == Kid(u, Opp(s), xp)
                        v == Set(Set(Set(u, "red", w, u.red[xp]), "red", xp, FALSE), "red", Kid(u, Opp(s), w), FALSE)
                        r == Rot(v, s, xp)
                    IN Use(Set(r, "red", x, FALSE)) /\ pc' = "idle" /\ x' = 0 /\ xp' = 0
       ELSE Use(Set(T, "red", x, FALSE)) /\ pc' = "idle" /\ x' = 0 /\ xp' = 0
    /\ UNCHANGED <<lm, rm, hist>>

Next == (\E k \in Keys : Insert(k) \/ Erase(k)) \/ InsFix \/ EraFix
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE BlackHeight(_), Height(_), InOrder(_)
BlackHeight(k) == IF k = 0 THEN 0
                  ELSE LET a == BlackHeight(lf[k])  b == BlackHeight(rt[k])
                       IN IF a # b \/ a = -1 THEN -1 ELSE a + (IF red[k] THEN 0 ELSE 1)
Height(k) == IF k = 0 THEN 0 ELSE 1 + (LET a == Height(lf[k])  b == Height(rt[k]) IN IF a > b THEN a ELSE b)
InOrder(k) == IF k = 0 THEN <<>> ELSE InOrder(lf[k]) \o <<k>> \o InOrder(rt[k])
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

Quiet == pc = "idle"
RedRule   == Quiet => \A k \in Mem : red[k] => ~IsRed(T, lf[k]) /\ ~IsRed(T, rt[k])
RootBlack == Quiet => root = 0 \/ ~red[root]
BlackRule == Quiet => BlackHeight(root) # -1
OrderRule == LET q == InOrder(root) IN \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
LinksOK   == \A k \in Mem : (k = root \/ (pa[k] # 0 /\ k \in {lf[pa[k]], rt[pa[k]]})) /\ (k = root => pa[k] = 0)
CachesOK  == IF root = 0 THEN TRUE ELSE lm = MinOf(T, root) /\ rm = MaxOf(T, root)
\* what C11 relies on: height <= 2 log2(n + 1)
HeightBound == Quiet => Pow2(Height(root)) <= (Cardinality(Mem) + 1) * (Cardinality(Mem) + 1)
\* the keys are the ones the history says
RECURSIVE Replay(_)
Replay(h) == IF h = <<>> THEN {} ELSE LET p == Replay(SubSeq(h, 1, Len(h) - 1)) e == h[Len(h)] IN IF e > 0 THEN p \cup {e} ELSE p \ {-e}
ContentOK == Quiet => Mem = Replay(hist)

Emit == EmitTable /\ Quiet => PrintT("@@" \o ToJson([h |-> hist]))
=============================================================================
