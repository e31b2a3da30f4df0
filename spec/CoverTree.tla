------------------------------ MODULE CoverTree ------------------------------
(***************************************************************************)
(* The batch builder of a goko cover tree as a transition system, at the   *)
(* grain of the code: a work item is split by a pool thread by picking     *)
(* centres one after another until everything is covered, the points are   *)
(* then assigned to clusters, the new nodes are counted, the finished node *)
(* is sent to the collector, and the children become work items.  The      *)
(* collector stops as soon as it has inserted as many nodes as were        *)
(* counted.                                                                *)
(*                                                                         *)
(* Exhaustive checking: MCCoverTree.  Trace validation: CoverTreeTrace     *)
(* reuses NodeOk, i.e. the relation between a work item and the node the   *)
(* code produced for it.                                                   *)
(***************************************************************************)
EXTENDS CoverGeom, TLC

VARIABLES
    prob,    \* the problem: points, thresholds, parameters
    todo,    \* spawned work items not yet picked up
    busy,    \* items being split: [w, K: centres in creation order, ns]
    counted, \* items split and counted, not yet sent: [w, node, kids]
    sent,    \* nodes in the channel
    tree,    \* address -> node, the collector's map
    total,   \* nodes ever counted
    done     \* the collector has returned

vars == <<prob, todo, busy, counted, sent, tree, total, done>>

Addr(w) == <<w.s, w.i>>
NoParent == <<>>

LeafRule(p, w) == Cardinality(w.cov) <= p.leaf \/ w.s < p.minres

\* a node as the API shows it (kids in creation order, sing as a set)
MkNode(w, nest, kids, sing, rad) ==
    [s |-> w.s, i |-> w.i, par |-> w.par, nest |-> nest, kids |-> kids,
     sing |-> sing, rad |-> rad, cov |-> Cardinality(w.cov)]

MkWork(s, i, par, cov) == [s |-> s, i |-> i, par |-> par, cov |-> cov]

(***************************************************************************)
(* Assignment of the covered points, given the centres in creation order.  *)
(***************************************************************************)
\* index in K of the cluster x goes to; 0 is the nested cluster
NearestCluster(p, w, K, x) ==
    IF K = <<>> THEN 0
    ELSE LET best == CHOOSE j \in 1 .. Len(K) :
                        /\ \A l \in 1 .. Len(K) : D2(p, K[j], x) <= D2(p, K[l], x)
                        /\ \A l \in 1 .. j - 1 : D2(p, K[j], x) < D2(p, K[l], x)
         IN IF x = w.i \/ D2(p, w.i, x) < D2(p, K[best], x) THEN 0 ELSE best
FirstCluster(p, w, K, x, ns) ==
    IF x = w.i \/ Within(p, D2(p, w.i, x), ns) THEN 0
    ELSE CHOOSE j \in 1 .. Len(K) :
            /\ Within(p, D2(p, K[j], x), ns)
            /\ \A l \in 1 .. j - 1 : ~Within(p, D2(p, K[l], x), ns)
Cluster(p, w, K, ns, j) ==
    {x \in w.cov : (IF p.part = "first" THEN FirstCluster(p, w, K, x, ns)
                    ELSE NearestCluster(p, w, K, x)) = j}

Uncovered(p, w, K, ns) ==
    {x \in w.cov : /\ ~Within(p, D2(p, w.i, x), ns)
                   /\ \A j \in 1 .. Len(K) : ~Within(p, D2(p, K[j], x), ns)}

\* the node and the child work items that a fully covered split produces
SplitResult(p, w, K, ns) ==
    LET rad   == Radius2(p, w.i, w.cov)
        nestC == Cluster(p, w, K, ns, 0)
        C     == [j \in 1 .. Len(K) |-> Cluster(p, w, K, ns, j)]
        isK(j) == ~(Cardinality(C[j]) = 1 /\ p.single)
        kidIx == SelectSeq([j \in 1 .. Len(K) |-> j], isK)
        sing  == {K[j] : j \in {l \in 1 .. Len(K) : ~isK(l)}}
        leaf  == kidIx = <<>> /\ Cardinality(nestC) = 1
    IN IF leaf THEN [node |-> MkNode(w, <<>>, <<>>, sing, rad), kids |-> {}]
       ELSE [node |-> MkNode(w, <<ns>>, [j \in 1 .. Len(kidIx) |-> <<ns, K[kidIx[j]]>>], sing, rad),
             kids |-> {MkWork(ns, w.i, Addr(w), nestC)}
                      \cup {MkWork(ns, K[kidIx[j]], Addr(w), C[kidIx[j]]) : j \in 1 .. Len(kidIx)}]

RootWork(p) ==
    LET c == p.n - 1
        r == Radius2(p, c, Points(p))
        s == IF r <= 0 THEN p.minres ELSE MaxOf2(CeilLog(p, r, p.smax), p.minres)
    IN MkWork(s, c, NoParent, Points(p))

InitWith(P) ==
    /\ prob \in P
    /\ todo = {RootWork(prob)}
    /\ busy = {} /\ counted = {} /\ sent = {}
    /\ tree = <<>>
    /\ total = 1
    /\ done = FALSE

Start(w) ==
    /\ w \in todo
    /\ todo' = todo \ {w}
    /\ IF LeafRule(prob, w)
       THEN /\ counted' = counted \cup
                  {[w |-> w, kids |-> {},
                    node |-> MkNode(w, <<>>, <<>>, w.cov \ {w.i}, Radius2(prob, w.i, w.cov))]}
            /\ UNCHANGED busy
       ELSE /\ \E ns \in NextScales(prob, w.s, Radius2(prob, w.i, w.cov)) :
                  busy' = busy \cup {[w |-> w, K |-> <<>>, ns |-> ns]}
            /\ UNCHANGED counted
    /\ UNCHANGED <<prob, sent, tree, total, done>>

PickCenter(b, x) ==
    /\ b \in busy
    /\ x \in Uncovered(prob, b.w, b.K, b.ns)
    /\ busy' = (busy \ {b}) \cup {[b EXCEPT !.K = Append(@, x)]}
    /\ UNCHANGED <<prob, todo, counted, sent, tree, total, done>>

\* all clusters known: the new nodes are counted before the parent is sent
Count(b) ==
    /\ b \in busy
    /\ Uncovered(prob, b.w, b.K, b.ns) = {}
    /\ LET r == SplitResult(prob, b.w, b.K, b.ns)
       IN /\ counted' = counted \cup {[w |-> b.w, node |-> r.node, kids |-> r.kids]}
          /\ total' = total + Cardinality(r.kids)
    /\ busy' = busy \ {b}
    /\ UNCHANGED <<prob, todo, sent, tree, done>>

Send(c) ==
    /\ c \in counted
    /\ counted' = counted \ {c}
    /\ sent' = sent \cup {c.node}
    /\ todo' = todo \cup c.kids
    /\ UNCHANGED <<prob, busy, tree, total, done>>

Receive(nd) ==
    /\ ~done
    /\ nd \in sent
    /\ sent' = sent \ {nd}
    /\ tree' = (<<nd.s, nd.i>> :> nd) @@ tree
    /\ done' = (Cardinality(DOMAIN tree') = total)
    /\ UNCHANGED <<prob, todo, busy, counted, total>>

BuildNext ==
    \/ \E w \in todo : Start(w)
    \/ \E b \in busy : \E x \in Uncovered(prob, b.w, b.K, b.ns) : PickCenter(b, x)
    \/ \E b \in busy : Count(b)
    \/ \E c \in counted : Send(c)
    \/ \E nd \in sent : Receive(nd)

(***************************************************************************)
(* What must be true of a finished tree T (address -> node) of problem p.  *)
(***************************************************************************)
ChildAddrs(nd) == (IF nd.nest = <<>> THEN {} ELSE {<<nd.nest[1], nd.i>>})
                  \cup {nd.kids[j] : j \in 1 .. Len(nd.kids)}

RECURSIVE CovOf(_, _)
\* the points under an address, read off the tree itself
CovOf(T, a) == LET nd == T[a]
               IN {nd.i} \cup nd.sing \cup UNION {CovOf(T, b) : b \in ChildAddrs(nd)}

NoDangling(T) == \A a \in DOMAIN T : ChildAddrs(T[a]) \subseteq DOMAIN T
ParentsRight(T, root) ==
    \A a \in DOMAIN T :
        /\ T[a].par = (IF a = root THEN NoParent ELSE T[a].par)
        /\ a # root => /\ T[a].par \in DOMAIN T
                       /\ a \in ChildAddrs(T[T[a].par])
        /\ \A b \in ChildAddrs(T[a]) : T[b].par = a
\* the homes of a point: where it is stored for good
Homes(T, x) == {a \in DOMAIN T : x \in T[a].sing \/ (T[a].nest = <<>> /\ T[a].i = x)}
OneHome(T, p) == \A x \in Points(p) : Cardinality(Homes(T, x)) = 1

(***************************************************************************)
(* NodeFaults: in which respects is node nd NOT a possible outcome of      *)
(* splitting work item w, when cov(b) is the set of points under child b?  *)
(* The empty set means nd is what some run of the builder produces.        *)
(***************************************************************************)
If(name, ok) == IF ok THEN {} ELSE {name}

NodeFaults(p, w, nd, cov(_)) ==
    LET r2     == Radius2(p, w.i, w.cov)
        kidS   == {nd.kids[j] : j \in 1 .. Len(nd.kids)}
        others == w.cov \ {w.i}
    IN
    If("addr", nd.s = w.s /\ nd.i = w.i /\ nd.par = w.par)
    \cup If("count", nd.cov = Cardinality(w.cov))
    \cup If("radius", r2 >= 0 => nd.rad = r2)
    \cup
    IF LeafRule(p, w)
    THEN If("leafrule", nd.nest = <<>>) \cup If("partition", nd.nest = <<>> => nd.sing = others)
    ELSE IF nd.nest = <<>>
    THEN \* everything split off into outliers
         If("partition", nd.sing = others)
         \cup If("single", others # {} => p.single)
         \cup If("leafrule", \E ns \in NextScales(p, w.s, r2) : Separated(p, w.cov, ns))
    ELSE LET ns == nd.nest[1]
             nestC == cov(<<ns, w.i>>)
             centers == {w.i} \cup nd.sing \cup {k[2] : k \in kidS}
             kidCov == [k \in kidS |-> cov(k)]
         IN
         If("scale", ns \in NextScales(p, w.s, r2) /\ \A k \in kidS : k[1] = ns)
         \cup If("single", /\ ~p.single => nd.sing = {}
                           /\ p.single => \A k \in kidS : Cardinality(kidCov[k]) > 1)
         \cup If("leafrule", kidS # {} \/ Cardinality(nestC) > 1)
         \* the clusters partition what the node covers
         \cup If("partition",
                 /\ Cardinality(kidS) = Len(nd.kids)
                 /\ w.cov = nestC \cup nd.sing \cup UNION {kidCov[k] : k \in kidS}
                 /\ Cardinality(w.cov) = Cardinality(nestC) + Cardinality(nd.sing)
                        + MapThenSumSet(LAMBDA k : Cardinality(kidCov[k]), kidS))
         \* covering and separation, judged at the scale the children say they have
         \cup If("sep", Separated(p, centers, ns))
         \cup If("ball", /\ InBall(p, w.i, nestC, ns)
                         /\ \A k \in kidS : InBall(p, k[2], kidCov[k], k[1]))
         \* the partition rule
         \cup If("rule",
              IF p.part = "first"
              THEN \A j \in 1 .. Len(nd.kids) : \A x \in kidCov[nd.kids[j]] :
                       /\ ~Within(p, D2(p, w.i, x), ns)
                       /\ \A l \in 1 .. j - 1 : ~Within(p, D2(p, nd.kids[l][2], x), ns)
              ELSE /\ \A x \in nestC : \A c \in centers : D2(p, w.i, x) <= D2(p, c, x)
                   /\ \A k \in kidS : \A x \in kidCov[k] : \A c \in centers :
                           D2(p, k[2], x) <= D2(p, c, x))
===============================================================================
