----------------------------- MODULE CloudsTrace ------------------------------
(***************************************************************************)
(* Validates glued clouds of the real code against Clouds; a source by     *)
(* itself (single) is the glued cloud of one source that is never          *)
(* re-indexed, except that a source need not know which of the names and   *)
(* labels it is asked for lie beyond its end.                              *)
(***************************************************************************)
EXTENDS TraceBase, Clouds

Final(c) == FoldLeft(LAMBDA m, op : Reindex(m, op.pairs), Glue(c.src), c.ops)
\* the maps each re-indexing starts from
Before(c, k) == FoldLeft(LAMBDA m, op : Reindex(m, op.pairs), Glue(c.src), SubSeq(c.ops, 1, k - 1))
Is(o, v) == o.r = "ok" /\ o.v = v
Err(o) == o.r = "err"

PointFaults(c, V, e) ==
    IF e.i \in DOMAIN V
    THEN If("point", Is(e.p, V[e.i].x) /\ Is(e.arr, V[e.i].x))
         \cup If("label", c.plain \/ Is(e.lab, V[e.i].lab))
         \cup If("name", Is(e.name, <<V[e.i].name>>))
         \cup If("meta", Is(e.meta, V[e.i].tag))
    ELSE If("beyond", Err(e.p) /\ Err(e.arr))
         \cup If("beyond", c.single \/ (Err(e.name) /\ Err(e.meta) /\ (c.plain \/ Err(e.lab))))

AllIn(li, V) == \A k \in 1 .. Len(li) : li[k] \in DOMAIN V
Xs(V, li) == [k \in 1 .. Len(li) |-> V[li[k]].x]
Labs(V, li) == [k \in 1 .. Len(li) |-> V[li[k]].lab]
\* the meta data of a list of indexes, of those that have any
Tagged(V, li) == FlattenSeq([k \in 1 .. Len(li) |-> V[li[k]].tag])
ListFaults(c, V, e) ==
    (IF AllIn(e.l, V)
     THEN If("distances", /\ Is(e.dq, [k \in 1 .. Len(e.l) |-> D2(e.q, V[e.l[k]].x)])
                          /\ Is(e.di, [k \in 1 .. Len(e.l) |-> D2(V[e.i].x, V[e.l[k]].x)]))
     ELSE If("distances", Err(e.dq) /\ Err(e.di)))
    \cup
    (IF AllIn(e.short, V)
     THEN If("moments", Is(e.m1, Moment1(c.dim, Xs(V, e.short))) /\ Is(e.m2, Moment2(c.dim, Xs(V, e.short))))
          \cup If("matrix", Is(e.mat, Xs(V, e.short)))
          \cup If("summary", c.plain \/
                    /\ e.sum.r = "ok"
                    /\ {<<<<e.sum.v.items[k][1]>>, e.sum.v.items[k][2]>> : k \in 1 .. Len(e.sum.v.items)} = Tally(Labs(V, e.short))
                    /\ e.sum.v.nones = Unlabeled(Labs(V, e.short)) /\ e.sum.v.errors = 0 /\ e.sum.v.count = Len(e.short))
          \cup If("meta", 
                    LET t == Tagged(V, e.short)
                    IN Is(e.metas, [nones |-> Len(e.short) - Len(t), errors |-> 0,
                                    sum |-> <<Len(t), FoldLeft(LAMBDA x, y : x + y, 0, t), FoldLeft(LAMBDA x, y : x + y * y, 0, t)>>]))
     ELSE If("beyond", Err(e.m1) /\ Err(e.m2) /\ Err(e.mat))
          \cup If("beyond", c.single \/ (Err(e.metas) /\ (c.plain \/ Err(e.sum)))))

Smaller(a, b) == IF a < b THEN a ELSE b
KnnFaults(c, V) ==
    If("knn", /\ c.knn.r = "ok"
              /\ Len(c.knn.v) = Smaller(c.tk, Cardinality(DOMAIN V))
              /\ \A j \in 1 .. Len(c.knn.v) :
                    /\ c.knn.v[j][1] \in DOMAIN V
                    /\ c.knn.v[j][2] = D2(c.tq, V[c.knn.v[j][1]].x)
                    /\ j > 1 => c.knn.v[j - 1][2] <= c.knn.v[j][2]
              /\ Cardinality({c.knn.v[j][1] : j \in 1 .. Len(c.knn.v)}) = Len(c.knn.v)
              /\ \A n \in DOMAIN V : (Len(c.knn.v) > 0 /\ n \notin {c.knn.v[j][1] : j \in 1 .. Len(c.knn.v)}) =>
                    D2(c.tq, V[n].x) >= c.knn.v[Len(c.knn.v)][2])

Faults(c) ==
    If("works", c.ok)
    \cup IF ~c.ok THEN {} ELSE
    LET m == Final(c)
        V == [n \in DOMAIN m |-> Row(c.src, m[n])]
    IN If("size", /\ c.len = Cardinality(DOMAIN V) /\ c.empty = (DOMAIN V = {}) /\ c.gdim = c.dim
                  /\ c.refs = SetToSortSeq(DOMAIN V, <))
       \cup If("reindex", \A k \in 1 .. Len(c.ops) : c.ops[k].ok = ReindexOk(Before(c, k), c.ops[k].pairs))
       \cup UNION {PointFaults(c, V, c.pts[k]) : k \in 1 .. Len(c.pts)}
       \cup If("names", /\ Len(c.names) = Cardinality(DOMAIN V)
                        /\ \A nm \in Range(c.names) :
                              Cardinality({k \in 1 .. Len(c.names) : c.names[k] = nm}) = Cardinality(Named(c.src, m, nm)))
       \cup If("lookup", \A k \in 1 .. Len(c.looked) :
                  LET J == Named(c.src, m, c.looked[k].name)
                  IN IF J = {} THEN (c.single /\ c.rows) \/ Err(c.looked[k].ix)
                     ELSE c.looked[k].ix.r = "ok" /\ c.looked[k].ix.v[1] \in J)
       \cup UNION {ListFaults(c, V, c.lists[k]) : k \in 1 .. Len(c.lists)}
       \cup KnnFaults(c, V)

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
