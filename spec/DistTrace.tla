------------------------------ MODULE DistTrace -------------------------------
(***************************************************************************)
(* Validates metrics and batches of distances of the real code against     *)
(* Distances.                                                              *)
(***************************************************************************)
EXTENDS TraceBase, Distances

Is(o, v) == o.r = "ok" /\ o.v = v
Err(o) == o.r = "err"
Batch(c, x, D(_, _)) == [k \in 1 .. Len(c.list) |-> D(x, c.pts[c.list[k] + 1])]
Known(c, li) == \A k \in 1 .. Len(li) : li[k] < c.n
Pts(c, li) == [k \in 1 .. Len(li) |-> c.pts[li[k] + 1]]

MetricFaults(c) ==
    LET want == <<L2Sq(c.x, c.y), L1(c.x, c.y)>>
    IN If("dense", c.dense = want)
       \cup If("sparse", \A k \in 1 .. Len(c.sparse) : c.sparse[k] = want)
       \cup If("iter", c.iter = <<c.xd, c.xd>>)
       \cup If("sparseiter", "iter2" \in DOMAIN c => c.iter2 = <<c.xd, c.xd>>)
       \cup If("input", c.xd = Dense(c.dim, c.x))
BatchFaults(c) ==
    (IF Known(c, c.list)
     THEN LET xi == c.pts[c.i + 1]
          IN If("l2", Is(c.q2, Batch(c, c.q, L2Sq)) /\ Is(c.i2, Batch(c, xi, L2Sq)))
             \cup If("l1", Is(c.q1, Batch(c, c.q, L1)) /\ Is(c.i1, Batch(c, xi, L1)))
     ELSE If("unknown", Err(c.q2) /\ Err(c.i2) /\ Err(c.q1) /\ Err(c.i1)))
    \cup If("unknown", Err(c.out))
    \cup (IF Known(c, c.short)
          THEN If("moments", Is(c.m1, Moments1(Pts(c, c.short))) /\ Is(c.m2, Moments2(Pts(c, c.short))))
               \cup If("matrix", Is(c.mat, Pts(c, c.short)))
          ELSE If("unknown", Err(c.m1) /\ Err(c.m2) /\ Err(c.mat)))
    \cup If("row", Is(c.row, c.pts[c.i + 1]))
Faults(c) == IF ~c.ok THEN {"works"} ELSE IF c.kind = "metric" THEN MetricFaults(c) ELSE BatchFaults(c)

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
