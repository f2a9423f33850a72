------------------------------ MODULE NestlBase ------------------------------
(* Sequence helpers shared by the contract modules.  Positions in operations  *)
(* are 0-based, as in the C++ API (distance from begin()).                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rep(n, v) == [i \in 1..n |-> v]
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))
InsertAt(q, i, s) == Take(q, i) \o s \o Drop(q, i)
EraseAt(q, i) == Take(q, i) \o Drop(q, i + 1)
EraseRange(q, i, j) == Take(q, i) \o Drop(q, j)
Slice(q, i, j) == SubSeq(q, i + 1, j)

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ p = Take(q, Len(p))

\* p is a subsequence of q
RECURSIVE IsSubseq(_, _)
IsSubseq(p, q) ==
    IF p = <<>> THEN TRUE
    ELSE IF Len(p) > Len(q) THEN FALSE
    ELSE IF Head(p) = Head(q) THEN IsSubseq(Tail(p), Tail(q))
    ELSE IsSubseq(p, Tail(q))

RECURSIVE Subseqs(_)
Subseqs(q) ==
    IF q = <<>> THEN {<<>>}
    ELSE LET r == Subseqs(Tail(q)) IN r \cup { <<Head(q)>> \o s : s \in r }

SeqsUpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }

\* used by trace specifications: names the clause an unexplained event violates
Check(b, why) == IF b THEN TRUE ELSE PrintT("@@WHY " \o why) /\ FALSE

Range(q) == { q[i] : i \in 1..Len(q) }
=============================================================================
