------------------------------- MODULE Persist -------------------------------
(***************************************************************************)
(* Saving and loading.  A tree is T (address -> node), its root, its       *)
(* parameters and the home of every point.  The file holds the parameters, *)
(* the root and one list of encoded nodes per layer; the homes are not in  *)
(* it, loading recomputes them by walking the tree from its root.  Files   *)
(* are whole or not there: Save replaces what was at its path.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

\* the encoding: a missing parent and a leaf are special values
NoScale == -100000
EncNode(nd) == [cov |-> nd.cov, s |-> nd.s, i |-> nd.i, rad |-> nd.rad, out |-> nd.sing,
                ps |-> IF nd.par = <<>> THEN NoScale ELSE nd.par[1],
                pi |-> IF nd.par = <<>> THEN -1 ELSE nd.par[2],
                leaf |-> nd.nest = <<>>,
                nst |-> IF nd.nest = <<>> THEN 0 ELSE nd.nest[1],
                cs |-> [j \in 1 .. Len(nd.kids) |-> nd.kids[j][1]],
                ci |-> [j \in 1 .. Len(nd.kids) |-> nd.kids[j][2]]]
DecNode(e) == [s |-> e.s, i |-> e.i, cov |-> e.cov, rad |-> e.rad, sing |-> e.out,
               par |-> IF e.ps = NoScale /\ e.pi = -1 THEN <<>> ELSE <<e.ps, e.pi>>,
               nest |-> IF e.leaf THEN <<>> ELSE <<e.nst>>,
               kids |-> IF e.leaf THEN <<>> ELSE [j \in 1 .. Len(e.cs) |-> <<e.cs[j], e.ci[j]>>]]

\* layer 1 holds everything below minres
LayerOf(minres, s) == IF s < minres THEN 1 ELSE s - minres + 2
Encode(T, root, prm) ==
    LET top == LayerOf(prm.minres, root[1])
    IN [prm |-> prm, root |-> root,
        layers |-> [k \in 1 .. top |->
            [s |-> prm.minres + k - 2,
             nodes |-> SetToSeq({EncNode(T[a]) : a \in {b \in DOMAIN T : LayerOf(prm.minres, b[1]) = k}})]]]
Decode(f) ==
    LET N == UNION {{DecNode(f.layers[k].nodes[j]) : j \in 1 .. Len(f.layers[k].nodes)} : k \in 1 .. Len(f.layers)}
    IN [a \in {<<nd.s, nd.i>> : nd \in N} |-> CHOOSE nd \in N : <<nd.s, nd.i>> = a]

Kids(nd) == (IF nd.nest = <<>> THEN {} ELSE {<<nd.nest[1], nd.i>>}) \cup {nd.kids[j] : j \in 1 .. Len(nd.kids)}
\* the homes as the walk from the root finds them
RECURSIVE HomesFrom(_, _)
HomesFrom(T, a) ==
    LET nd == T[a]
        own == nd.sing \cup (IF nd.nest = <<>> THEN {nd.i} ELSE {})
    IN FoldSet(LAMBDA b, acc : HomesFrom(T, b) @@ acc, [x \in own |-> a], Kids(nd))
===============================================================================
