------------------------------ MODULE Distances -------------------------------
(***************************************************************************)
(* Points given by their non-zero entries, a sequence of <<index, value>>. *)
(***************************************************************************)
EXTENDS Clouds

At(p, k) == LET J == {j \in 1 .. Len(p) : p[j][1] = k} IN IF J = {} THEN 0 ELSE p[Min(J)][2]
Support(p) == {p[j][1] : j \in 1 .. Len(p)}
OnSupport(p, q, Op(_)) == MapThenSumSet(LAMBDA k : Op(At(p, k) - At(q, k)), Support(p) \cup Support(q))
L2Sq(p, q) == OnSupport(p, q, Sq)
L1(p, q) == OnSupport(p, q, Abs)
Dense(d, p) == [k \in 1 .. d |-> At(p, k)]
\* sums over a sequence of points, written by non-zero entries in index order
SumBy(S, Op(_)) ==
    LET K == UNION {Support(S[j]) : j \in 1 .. Len(S)}
        Val(k) == Sum([j \in 1 .. Len(S) |-> Op(At(S[j], k))])
        NZ == SetToSortSeq({k \in K : Val(k) # 0}, <)
    IN [n \in 1 .. Len(NZ) |-> <<NZ[n], Val(NZ[n])>>]
Moments1(S) == SumBy(S, LAMBDA v : v)
Moments2(S) == SumBy(S, Sq)
===============================================================================
