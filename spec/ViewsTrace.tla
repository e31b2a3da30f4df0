----------------------------- MODULE ViewsTrace -------------------------------
(***************************************************************************)
(* Judges what real trees show of themselves against Views, given the      *)
(* nodes found by walking from the root.                                   *)
(***************************************************************************)
EXTENDS TraceBase, Views

ToSets(x) == {x[k] : k \in 1 .. Len(x)}
NodesOf(c) == {c.nodes[k] : k \in 1 .. Len(c.nodes)}
KidSet(nd) == (IF nd.nest = <<>> THEN {} ELSE {<<nd.nest[1], nd.i>>}) \cup ToSets(nd.kids)
Raw(c) == [a \in {<<nd.s, nd.i>> : nd \in NodesOf(c)} |-> CHOOSE nd \in NodesOf(c) : nd.s = a[1] /\ nd.i = a[2]]
TreeOf(R) == [a \in DOMAIN R |-> [kids |-> KidSet(R[a]), sing |-> Len(R[a].sing), cov |-> R[a].cov]]
Near(got, f) == LET want == IF f[2] = 0 THEN 0 ELSE (1000 * f[1]) \div f[2]
                IN got >= 0 /\ got - want <= 2 + want \div 1000 /\ want - got <= 2 + want \div 1000
Centers(T, s) == {a[2] : a \in On(T, s)}

LayerOk(T, y) ==
    /\ y.s = y.ls /\ y.len = Cardinality(On(T, y.s)) /\ y.empty = (On(T, y.s) = {})
    /\ ToSets(y.centers) = Centers(T, y.s) /\ Len(y.centers) = y.len
    /\ ToSets(y.each) = {<<a[2], T[a].cov>> : a \in On(T, y.s)} /\ Len(y.each) = y.len
    /\ y.map = y.each
ViewFaults(c, T, v) ==
    LET top == Max({a[1] : a \in DOMAIN T})
    IN If("counts", v.count = Cardinality(DOMAIN T) /\ v.len = Len(v.layers) /\ ~v.empty)
       \* from the layer of the root down to the one below the minimum resolution
       \cup If("layers", /\ v.root[1] = top
                         /\ [k \in 1 .. Len(v.layers) |-> v.layers[k].s] = [k \in 1 .. top - c.minres + 2 |-> top - k + 1]
                         /\ v.range = <<c.minres, top + 1>>)
       \cup If("layer", \A k \in 1 .. Len(v.layers) : LayerOk(T, v.layers[k]))
       \cup If("layer-reader", v.again = v.layers)

RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1000 ELSE (Power(b, n - 1) * b) \div 1000
Faults(c) ==
    IF ~c.ok THEN {"works"}
    ELSE
    LET R == TLCEval(Raw(c))
        T == TLCEval(TreeOf(R))
    IN If("walk", Cardinality(DOMAIN R) = Len(c.nodes) /\ \A a \in DOMAIN T : T[a].kids \subseteq DOMAIN T)
       \cup IF ~(\A a \in DOMAIN T : T[a].kids \subseteq DOMAIN T) THEN {} ELSE
       UNION {ViewFaults(c, T, c.views[k]) : k \in 1 .. Len(c.views)}
       \cup If("same", \A k \in 1 .. Len(c.views) : c.views[k] = c.views[1])
       \cup If("numbers", \A a \in DOMAIN R : /\ R[a].nk = Cardinality(T[a].kids) /\ R[a].ns = T[a].sing
                                              /\ R[a].leaf = (R[a].nest = <<>>))
       \cup If("children", \A k \in 1 .. Len(c.kids) :
                LET x == c.kids[k]
                    a == <<x.s, x.i>>
                    want == IF R[a].nest = <<>> THEN <<>> ELSE <<[nest |-> <<R[a].nest[1], a[2]>>, kids |-> R[a].kids]>>
                IN x.tree = want /\ x.layer = want)
       \cup If("absent", \A k \in 1 .. Len(c.absent) : c.absent[k][1] /\ c.absent[k][2])
       \cup If("scale", \A k \in 1 .. (IF c.base > 10000 THEN 2 ELSE Len(c.scales)) :
                LET d == c.scales[k] - Power(c.base, k - 1) IN d <= 40 /\ 0 - d <= 40)
       \cup If("node-dimension", \A k \in 1 .. Len(c.kids) : Near(c.kids[k].dim, NodeDim(T, <<c.kids[k].s, c.kids[k].i>>)))
       \cup If("weighted-node-dimension", \A k \in 1 .. Len(c.kids) : Near(c.kids[k].wdim, NodeWeighted(T, <<c.kids[k].s, c.kids[k].i>>)))
       \cup If("layer-dimension", \A k \in 1 .. Len(c.dims) : Near(c.dims[k][2], LayerDim(T, c.dims[k][1])))
       \cup If("weighted-layer-dimension", \A k \in 1 .. Len(c.dims) : Near(c.dims[k][3], LayerWeighted(T, c.dims[k][1])))

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
