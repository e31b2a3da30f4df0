------------------------------- MODULE MCViews --------------------------------
(***************************************************************************)
(* The dimension of a layer as the code computes it: it visits the nodes   *)
(* of the layer in whatever order the map gives them, collects coverages   *)
(* and outliers, and divides by the largest at the end.  On every small    *)
(* tree the outcome is the defined fraction, and the nodes of the layers   *)
(* add up to the nodes of the tree.                                        *)
(***************************************************************************)
EXTENDS Views

CONSTANTS Nodes, MaxOwn, Scales
N == 1 .. Nodes
VARIABLES par, lay, own, at, todo, parents, kids, singles, done
vars == <<par, lay, own, at, todo, parents, kids, singles, done>>

KidsOf(a) == {b \in N : par[b] = a}
RECURSIVE Cov(_)
Cov(a) == own[a] + (IF KidsOf(a) = {} THEN 1 ELSE 0) + FoldSet(LAMBDA b, x : Cov(b) + x, 0, KidsOf(a))
Addr(a) == <<lay[a], a>>
T == [x \in {Addr(a) : a \in N} |-> LET a == x[2] IN [kids |-> {Addr(b) : b \in KidsOf(a)}, sing |-> own[a], cov |-> Cov(a)]]

Init == /\ par \in {f \in [N -> 0 .. Nodes] : \A a \in N : IF a = 1 THEN f[a] = 0 ELSE f[a] \in 1 .. a - 1}
        /\ lay \in {f \in [N -> Scales] : \A a \in N : a # 1 => f[a] < f[par[a]]}
        /\ own \in [N -> 0 .. MaxOwn]
        /\ at \in Scales
        /\ todo = {a \in N : lay[a] = at}
        /\ parents = <<>> /\ kids = <<>> /\ singles = 0 /\ done = FALSE

Visit(a) == /\ a \in todo
            /\ todo' = todo \ {a}
            /\ parents' = Append(parents, Cov(a))
            /\ kids' = kids \o SetToSeq({<<b, Cov(b)>> : b \in KidsOf(a)})
            /\ singles' = singles + own[a]
            /\ UNCHANGED <<par, lay, own, at, done>>
Finish == /\ todo = {} /\ ~done /\ done' = TRUE
          /\ UNCHANGED <<par, lay, own, at, todo, parents, kids, singles>>
Next == (\E a \in N : Visit(a)) \/ Finish
Spec == Init /\ [][Next]_vars

SumSeq(s, f(_)) == FoldLeft(LAMBDA x, y : x + f(y), 0, s)
MaxSeq(s, f(_)) == IF s = <<>> THEN 1 ELSE Max({f(s[k]) : k \in 1 .. Len(s)})
Same(f, g) == f[1] * g[2] = g[1] * f[2]
Dimensions == done /\ parents # <<>> =>
    /\ Same(<<Len(kids) + singles, Len(parents)>>, LayerDim(T, at))
    /\ Same(<<(singles + SumSeq(kids, LAMBDA x : x[2])) * MaxSeq(parents, LAMBDA x : x), MaxSeq(kids, LAMBDA x : x[2]) * SumSeq(parents, LAMBDA x : x)>>,
            LayerWeighted(T, at))
\* a layer of one node has the dimension of that node, and one with as many children and outliers of one point each as nodes has none
OneNode == done /\ Len(parents) = 1 =>
    LET a == CHOOSE x \in On(T, at) : TRUE
    IN Same(LayerDim(T, at), NodeDim(T, a)) /\ Same(LayerWeighted(T, at), NodeWeighted(T, a))
Counts == FoldSet(LAMBDA s, x : Cardinality(On(T, s)) + x, 0, Scales) = Cardinality(N)
===============================================================================
