-------------------------------- MODULE Views ---------------------------------
(***************************************************************************)
(* What a tree shows of itself, given its nodes: T maps the address        *)
(* <<scale, centre>> of each node to the addresses of its children (the    *)
(* nested one included), the number of its outliers and the number of      *)
(* points it covers.  A dimension is the logarithm, to the scale base, of  *)
(* a fraction <<numerator, denominator>>.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

On(T, s) == {a \in DOMAIN T : a[1] = s}
Total(S, f(_)) == FoldSet(LAMBDA a, x : f(a) + x, 0, S)
Below(T, a) == Cardinality(T[a].kids) + T[a].sing
Biggest(T, S) == IF S = {} THEN 1 ELSE Max({T[a].cov : a \in S})

\* a node: how many children and outliers it has
NodeDim(T, a) == <<Below(T, a), 1>>
\* each child counts as its share of the largest child's points, an outlier as one point
NodeWeighted(T, a) == <<Total(T[a].kids, LAMBDA b : T[b].cov) + T[a].sing, Biggest(T, T[a].kids)>>
\* a layer: children and outliers of its nodes, for each node
LayerDim(T, s) == <<Total(On(T, s), LAMBDA a : Below(T, a)), Cardinality(On(T, s))>>
\* both weighted by their share of the largest
LayerWeighted(T, s) ==
    LET P == On(T, s)
        K == UNION {T[a].kids : a \in P}
    IN <<(Total(K, LAMBDA b : T[b].cov) + Total(P, LAMBDA a : T[a].sing)) * Biggest(T, P),
         Biggest(T, K) * Total(P, LAMBDA a : T[a].cov)>>
===============================================================================
