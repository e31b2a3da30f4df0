--------------------------- MODULE CoverQueryTrace ---------------------------
(***************************************************************************)
(* Validates the answers real trees gave: one line per tree, each with the *)
(* projection of the tree and the queries put to it.                       *)
(***************************************************************************)
EXTENDS CoverQuery, Json, IOUtils

CONSTANT Mode     \* "knn", "rknn" or "path"
VARIABLES l, j, bad
vars == <<l, j, bad>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
C == Trace[l]

\* a query over a cloud that reported a failure is an error, and only then
Answer(r, F) == If("result", r.res = (IF r.rep THEN "err" ELSE "ok"))
                \cup IF r.res = "ok" THEN F ELSE {}
\* what a single node contributes to a query: its outliers, the centres of its children, and at a leaf its own
OutliersOf(nd) == {nd.sing[m] : m \in 1 .. Len(nd.sing)}
KidsOf(nd) == IF nd.nest = <<>> THEN {} ELSE {nd.i} \cup {nd.kids[m][2] : m \in 1 .. Len(nd.kids)}
NearFaults(c, q) ==
    LET nd == Lookup(c, q.at)
        S == <<OutliersOf(nd) \cup KidsOf(nd) \cup {nd.i}, OutliersOf(nd), KidsOf(nd)>>
    IN IF \A m \in 1 .. 3 : Answer(q.near[m], KnnFaults(c, q.x, q.kn, S[m], q.near[m].ans)) = {} THEN {} ELSE {"near"}
QueryFaults(c, q) ==
    CASE Mode = "knn"  -> Answer(q.knn, KnnFaults(c, q.x, q.k, Points(c), q.knn.ans)) \cup NearFaults(c, q)
      [] Mode = "rknn" -> Answer(q.rknn, KnnFaults(c, q.x, q.k, Centers(c), q.rknn.ans))
      [] Mode = "path" -> Answer(q.path, PathFaults(c, q.x, q.path.ans)
                              \* an indexed point is routed to where the tree keeps it
                              \cup If("route", q.pi >= 0 => q.path.ans = c.kp[q.pi + 1]))
                          \cup Answer(q.kp, If("known", q.pi >= 0 => q.kp.ans = c.kp[q.pi + 1]))

\* a query infinitely far from every point still gets its k points, and its path ends at the root
FarOk(r, k, S) == /\ r.res = "ok"
                  /\ Len(r.ans) = (IF k < Cardinality(S) THEN k ELSE Cardinality(S))
                  /\ Cardinality({r.ans[m][1] : m \in 1 .. Len(r.ans)}) = Len(r.ans)
                  /\ \A m \in 1 .. Len(r.ans) : r.ans[m][1] \in S /\ r.ans[m][2]

CaseFaults(c) ==
    If("built", c.ok)
    \cup (IF ~c.ok THEN {}
          ELSE If("far", \A m \in 1 .. Len(c.far) :
                            CASE Mode = "knn" -> FarOk(c.far[m].knn, c.far[m].k, Points(c))
                              [] Mode = "rknn" -> FarOk(c.far[m].rknn, c.far[m].k, Centers(c))
                              [] Mode = "path" -> c.far[m].path.res = "ok" /\ c.far[m].path.ans = <<<<c.root[1], c.root[2], TRUE>>>>))
    \cup IF ~c.ok \/ Mode # "path" THEN {}
         ELSE UNION {KnownPathFaults(c, x, c.kp[x + 1]) : x \in Points(c)}
              \cup If("unknown", c.unknown)

Init == l = 1 /\ j = 0 /\ bad = 0

Report(F, k) == IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", l, C.id, F, k>>)

Open == /\ l <= Len(Trace) /\ j = 0
        /\ LET F == CaseFaults(C)
           IN /\ Report(F, 0)
              /\ bad' = IF F = {} THEN bad ELSE bad + 1
              /\ IF C.ok /\ F = {} THEN j' = 1 /\ UNCHANGED l ELSE j' = 0 /\ l' = l + 1
Query == /\ l <= Len(Trace) /\ j > 0
         /\ IF j > Len(C.qs) THEN l' = l + 1 /\ j' = 0 /\ UNCHANGED bad
            ELSE LET F == QueryFaults(C, C.qs[j])
                 IN /\ Report(F, j)
                    /\ bad' = IF F = {} THEN bad ELSE bad + 1
                    /\ j' = j + 1 /\ UNCHANGED l
Next == Open \/ Query
Spec == Init /\ [][Next]_vars

\* how far the run got, and whether anything was rejected
Reach == TLCSet(1, l - 1) /\ TLCSet(2, bad)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Trace), TLCGet(2)>>) /\ TLCGet(1) = Len(Trace) /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
===============================================================================
