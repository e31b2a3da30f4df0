------------------------------ MODULE CoverGeom ------------------------------
(***************************************************************************)
(* The geometry a goko tree is judged by.  A problem p is a record         *)
(*   n, pts        number of points, their integer grid coordinates (seq   *)
(*                 of seq; point i of the API is pts[i+1])                  *)
(*   lt, le, smin  for scale s, lt[s-smin+1] is the least squared grid      *)
(*                 distance that is NOT < base^s, le[..] the least one that *)
(*                 is > base^s                                              *)
(*   leaf, minres, single, part     the build parameters                    *)
(* All distances are compared through their squares, which are integers,   *)
(* so nothing here depends on floating point.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Points(p) == 0 .. (p.n - 1)

RECURSIVE SqSum(_, _, _)
SqSum(x, y, k) == IF k = 0 THEN 0
                  ELSE LET d == x[k] - y[k] IN d * d + SqSum(x, y, k - 1)
Sq(x, y) == SqSum(x, y, Len(x))

\* squared distance between two dataset points / a query and a dataset point
D2(p, i, j) == Sq(p.pts[i + 1], p.pts[j + 1])
Q2(p, q, j) == Sq(q, p.pts[j + 1])

\* d2 stands for a distance < base^s
Within(p, d2, s) == d2 < p.lt[s - p.smin + 1]
\* d2 stands for a distance <= base^s
WithinEq(p, d2, s) == d2 < p.le[s - p.smin + 1]
\* d2 stands for a distance that is exactly base^s
Exactly(p, d2, s) == WithinEq(p, d2, s) /\ ~Within(p, d2, s)

\* ceil(log_base(distance)) clipped into the scales the problem knows, and never below minres - 1
CeilLog(p, d2, smax) ==
    LET S == {s \in p.smin .. smax : WithinEq(p, d2, s)}
    IN IF S = {} THEN smax ELSE Min(S)

MaxOr(S, d) == IF S = {} THEN d ELSE Max(S)
MaxOf2(a, b) == IF a > b THEN a ELSE b
MinOf2(a, b) == IF a < b THEN a ELSE b

\* the largest distance from centre c to a point it covers, -1 if it covers nothing else
Radius2(p, c, cov) == MaxOr({D2(p, c, x) : x \in cov \ {c}}, -1)

(***************************************************************************)
(* The scale the builder splits a node at: one below the node's own, or,   *)
(* if the node is emptier than that, the scale its radius needs (but never *)
(* below minres while the node itself is above it).  A radius that is an   *)
(* exact power of the base may be rounded up by the logarithm.             *)
(***************************************************************************)
NextScales(p, s, r2) ==
    LET c  == IF r2 <= 0 THEN p.minres ELSE CeilLog(p, r2, MaxOf2(s, p.minres))
        ns(x) == MinOf2(s - 1, MaxOf2(x, p.minres))
    IN {ns(c)} \cup (IF r2 > 0 /\ Exactly(p, r2, c) THEN {ns(c + 1)} ELSE {})

\* centres are pairwise at least base^s apart
Separated(p, C, s) == \A a, b \in C : a # b => ~Within(p, D2(p, a, b), s)
\* every covered point is inside the ball of its centre
InBall(p, c, cov, s) == \A x \in cov : Within(p, D2(p, c, x), s)

(***************************************************************************)
(* The k smallest values f takes on S, in ascending order.                 *)
(***************************************************************************)
SmallestK(S, f(_), k) ==
    LET q    == SetToSeq(S)
        vals == [j \in 1 .. Len(q) |-> f(q[j])]
        srt  == SortSeq(vals, LAMBDA a, b : a < b)
    IN SubSeq(srt, 1, IF k < Len(srt) THEN k ELSE Len(srt))
===============================================================================
