----------------------------- MODULE MCCoverTree -----------------------------
(***************************************************************************)
(* Exhaustive checking of the builder (CoverTree) and of the best first    *)
(* search over the finished tree, for every sequence of points on a short  *)
(* line and every combination of build parameters.                         *)
(*                                                                         *)
(* MCCoverTree_par.cfg   all interleavings of the pool and the collector   *)
(* MCCoverTree_seq.cfg   one worker, bigger instances, then every          *)
(*                       schedule of the search for every query            *)
(***************************************************************************)
EXTENDS CoverTree

CONSTANTS N, Span, Leafs, MinRes, SMax, Parallel, KMax

VARIABLE q      \* the search: [ph, x, k, ch, si, known, best]
mcvars == <<vars, q>>

MinResDef == {-1, 1}
NoQueries == -1
Pow4(k) == 4 ^ k
LtOf(s) == IF s >= 0 THEN Pow4(s) ELSE 1
LeOf(s) == IF s >= 0 THEN Pow4(s) + 1 ELSE 1

SMin == Min(MinRes) - 2
Problems ==
    UNION {{[n |-> n, pts |-> pts, leaf |-> lc, minres |-> mr, single |-> sg, part |-> pt,
             smin |-> SMin, smax |-> SMax,
             lt |-> [j \in 1 .. SMax - SMin + 2 |-> LtOf(SMin + j - 1)],
             le |-> [j \in 1 .. SMax - SMin + 2 |-> LeOf(SMin + j - 1)]] :
                pts \in [1 .. n -> {<<c>> : c \in 0 .. Span}], lc \in Leafs, mr \in MinRes,
                sg \in BOOLEAN, pt \in {"first", "nearest"}} : n \in 1 .. N}

Init == InitWith(Problems) /\ q = [ph |-> "build"]

(***************************************************************************)
(* Best first search with two frontiers.  A node enters the frontier only  *)
(* if it could hold something nearer than the worst of the k best so far;  *)
(* once in, it is visited whatever happens.  The order is left open.       *)
(***************************************************************************)
K0 == -SMin
\* sqrt(a) - 2^s < sqrt(m), in integers
Promising(a, s, m) ==
    LET A == a * Pow4(K0)  M == m * Pow4(K0)  B == Pow4(s + K0)  t == A - M - B
    IN t < 0 \/ t * t < 4 * B * M
Worst(best) == best[Len(best)]
InsertK(best, d, k) ==
    LET b == SortSeq(Append(best, d), LAMBDA u, v : u < v)
    IN SubSeq(b, 1, MinOf2(k, Len(b)))

\* push one node (its centre becomes a candidate, itself a place to look)
PushNode(st, a) ==
    LET d  == Q2(prob, st.x, a[2])
        ok == Len(st.best) < st.k \/ st.best = <<>> \/ Promising(d, a[1], Worst(st.best))
    IN [st EXCEPT !.ch = IF ok THEN @ \cup {a} ELSE @,
                  !.known = @ \cup {a[2]},
                  !.best = IF a[2] \in st.known THEN @ ELSE InsertK(@, d, st.k)]
PushPoint(st, x) ==
    IF x \in st.known THEN st
    ELSE [st EXCEPT !.known = @ \cup {x}, !.best = InsertK(@, Q2(prob, st.x, x), st.k)]

RootAddr == Addr(RootWork(prob))

Ask == /\ done /\ q.ph = "build" /\ KMax >= 0
       /\ \E x \in -1 .. Span + 1 : \E k \in 0 .. KMax : \E kind \in {"knn", "routing"} :
            q' = PushNode([ph |-> kind, x |-> <<x>>, k |-> k, ch |-> {}, si |-> {},
                           known |-> {}, best |-> <<>>], RootAddr)
       /\ UNCHANGED vars
Expand == /\ q.ph \in {"knn", "routing"}
          /\ \E a \in q.ch :
               LET nd == tree[a]
                   s0 == [q EXCEPT !.ch = @ \ {a}, !.si = @ \cup {a}]
                   kids == IF nd.nest = <<>> THEN <<>> ELSE <<<<nd.nest[1], nd.i>>>> \o nd.kids
               IN q' = FoldLeft(LAMBDA st, b : PushNode(st, b), s0, kids)
          /\ UNCHANGED vars
Outliers == /\ q.ph = "knn"
            /\ \E a \in q.si :
                 q' = FoldLeft(LAMBDA st, x : PushPoint(st, x), [q EXCEPT !.si = @ \ {a}],
                               SetToSeq(tree[a].sing))
            /\ UNCHANGED vars
Answer == /\ \/ q.ph = "knn" /\ q.ch = {} /\ q.si = {}
             \/ q.ph = "routing" /\ q.ch = {}
          /\ q' = [ph |-> "answered", kind |-> q.ph, x |-> q.x, k |-> q.k, best |-> q.best]
          /\ UNCHANGED vars

\* one worker: always finish the item at hand
SeqNext ==
    IF sent # {} /\ ~done THEN \E nd \in {CHOOSE y \in sent : TRUE} : Receive(nd)
    ELSE IF counted # {} THEN \E c \in {CHOOSE y \in counted : TRUE} : Send(c)
    ELSE IF busy # {} THEN \E b \in busy :
              \/ \E x \in Uncovered(prob, b.w, b.K, b.ns) : PickCenter(b, x)
              \/ Count(b)
    ELSE \E w \in {CHOOSE y \in todo : TRUE} : Start(w)

Next ==
    \/ /\ ~done /\ UNCHANGED q
       /\ IF Parallel THEN BuildNext ELSE (todo # {} \/ busy # {} \/ counted # {} \/ sent # {}) /\ SeqNext
    \/ Ask \/ Expand \/ Outliers \/ Answer

Spec == Init /\ [][Next]_mcvars
FairSpec == Spec /\ WF_mcvars(Next)

-------------------------------------------------------------------------------
\* the collector never returns early, and when it returns nothing is left over
DoneMeansAll == done => todo = {} /\ busy = {} /\ counted = {} /\ sent = {} /\ Cardinality(DOMAIN tree) = total
NeverStuck == (todo = {} /\ busy = {} /\ counted = {} /\ sent = {}) => done

Structure == done /\ q.ph = "build" =>
    /\ NoDangling(tree)
    /\ ParentsRight(tree, RootAddr)
    /\ OneHome(tree, prob)
    /\ CovOf(tree, RootAddr) = Points(prob)
    /\ \A a \in DOMAIN tree : tree[a].cov = Cardinality(CovOf(tree, a))

\* covering, separation, radius: for every node of the finished tree
Cover == done /\ q.ph = "build" => \A a \in DOMAIN tree :
    LET nd == tree[a]
        cov == CovOf(tree, a)
    IN /\ a # RootAddr => InBall(prob, nd.i, cov, nd.s)
       /\ a = RootAddr /\ prob.n > 1 => \A x \in cov : WithinEq(prob, D2(prob, nd.i, x), nd.s)
       /\ nd.nest # <<>> => Separated(prob, {nd.i} \cup nd.sing \cup {b[2] : b \in ChildAddrs(nd)}, nd.nest[1])
       /\ Cardinality(cov) > 1 => nd.rad = Radius2(prob, nd.i, cov)
       /\ \A b \in ChildAddrs(nd) : b[1] < nd.s
       /\ nd.s >= prob.minres - 1

\* every node is one the relation used for trace validation accepts
RelationAccepts == done /\ q.ph = "build" => \A a \in DOMAIN tree :
    NodeFaults(prob, MkWork(a[1], a[2], tree[a].par, CovOf(tree, a)), tree[a],
               LAMBDA b : CovOf(tree, b)) = {}

\* routing an indexed point from the root ends where the tree keeps it
RECURSIVE Route(_, _)
Route(x, a) ==
    LET nd == tree[a]
        o  == IF nd.nest = <<>> THEN <<>> ELSE <<<<nd.nest[1], nd.i>>>> \o nd.kids
        J  == 1 .. Len(o)
        d(j) == D2(prob, x, o[j][2])
        cover(j) == Within(prob, d(j), o[j][1])
        \* children before nested on a tie, earlier children before later ones
        best == {j \in J : /\ \A m \in J : d(j) <= d(m)
                           /\ \A m \in J : m # j /\ d(m) = d(j) => (j # 1 /\ (m = 1 \/ j < m))}
        nxt == IF prob.part = "first" THEN {j \in J : cover(j) /\ \A m \in 1 .. j - 1 : ~cover(m)}
               ELSE {j \in best : cover(j)}
    IN IF nxt = {} THEN a ELSE Route(x, o[CHOOSE j \in nxt : TRUE])
RoutesHome == done /\ q.ph = "build" => \A x \in Points(prob) : Route(x, RootAddr) \in Homes(tree, x)

SearchExact == q.ph = "answered" =>
    q.best = SmallestK(IF q.kind = "knn" THEN Points(prob) ELSE {a[2] : a \in DOMAIN tree},
                       LAMBDA y : Q2(prob, q.x, y), q.k)

Finishes == <>done
===============================================================================
