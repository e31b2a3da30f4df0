------------------------------ MODULE CoverQuery ------------------------------
(***************************************************************************)
(* What the queries of a tree must answer.  c is a problem together with   *)
(* the projection of a tree built for it (c.nodes, c.root); a query point  *)
(* x is a sequence of integer grid coordinates.                            *)
(***************************************************************************)
EXTENDS CoverGeom

If(name, ok) == IF ok THEN {} ELSE {name}

NodeSet(c) == {c.nodes[j] : j \in 1 .. Len(c.nodes)}
Centers(c) == {nd.i : nd \in NodeSet(c)}
Lookup(c, a) == CHOOSE nd \in NodeSet(c) : nd.s = a[1] /\ nd.i = a[2]
Has(c, a) == \E nd \in NodeSet(c) : nd.s = a[1] /\ nd.i = a[2]

(***************************************************************************)
(* ans is a sequence of <<index, squared distance>>.  It must be the k     *)
(* nearest of the points S (all of them if there are fewer), each once,    *)
(* with its true distance, nearest first.  Which of several points at the  *)
(* same distance are named is left open.                                   *)
(***************************************************************************)
KnnFaults(c, x, k, S, ans) ==
    LET want == SmallestK(S, LAMBDA j : Q2(c, x, j), k)
    IN If("length", Len(ans) = Len(want))
       \cup If("members", \A j \in 1 .. Len(ans) : ans[j][1] \in S)
       \cup If("repeat", Cardinality({ans[j][1] : j \in 1 .. Len(ans)}) = Len(ans))
       \cup If("distance", \A j \in 1 .. Len(ans) : ans[j][1] \in S => ans[j][2] = Q2(c, x, ans[j][1]))
       \cup If("nearest", [j \in 1 .. Len(ans) |-> ans[j][2]] = want)

(***************************************************************************)
(* The dry insert.  From a routing node the query moves to the nested      *)
(* child or to one of the other children: the nearest of them (partition   *)
(* "nearest") or the first that covers it, nested first ("first"); it      *)
(* stops where the one it would move to does not cover it, or at a leaf.   *)
(***************************************************************************)
Options(c, nd) == IF nd.nest = <<>> THEN <<>> ELSE <<<<nd.nest[1], nd.i>>>> \o nd.kids

NextHops(c, x, a) ==
    LET o == Options(c, Lookup(c, a))
        d(j) == Q2(c, x, o[j][2])
        cover(j) == Within(c, d(j), o[j][1])
        J == 1 .. Len(o)
    IN IF c.part = "first"
       THEN {o[j] : j \in {m \in J : cover(m) /\ \A l \in 1 .. m - 1 : ~cover(l)}}
       ELSE {o[j] : j \in {m \in J : cover(m) /\ \A l \in J : d(m) <= d(l)}}
\* stopping is right when no hop is possible; with a tie between a covering and a non covering
\* child (children on one scale cover alike, so only across scales) it is left open
MayStop(c, x, a) ==
    LET o == Options(c, Lookup(c, a))
        J == 1 .. Len(o)
        d(j) == Q2(c, x, o[j][2])
        cover(j) == Within(c, d(j), o[j][1])
    IN \/ o = <<>>
       \/ IF c.part = "first" THEN \A j \in J : ~cover(j)
          ELSE \E j \in J : ~cover(j) /\ \A l \in J : d(j) <= d(l)

\* t is a sequence of <<scale, index, squared distance>>
PathFaults(c, x, t) ==
    If("start", Len(t) > 0 /\ <<t[1][1], t[1][2]>> = <<c.root[1], c.root[2]>>)
    \cup If("pathdist", \A j \in 1 .. Len(t) : t[j][2] \in Points(c) => t[j][3] = Q2(c, x, t[j][2]))
    \cup IF ~ \A j \in 1 .. Len(t) : Has(c, <<t[j][1], t[j][2]>>) THEN {"nowhere"}
         ELSE If("hop", \A j \in 1 .. Len(t) - 1 :
                         <<t[j + 1][1], t[j + 1][2]>> \in NextHops(c, x, <<t[j][1], t[j][2]>>))
              \cup If("stop", Len(t) > 0 => MayStop(c, x, <<t[Len(t)][1], t[Len(t)][2]>>))

RECURSIVE Up(_, _, _)
\* the addresses from the root down to a, by parent links (at most fuel of them)
Up(c, a, fuel) ==
    IF fuel = 0 \/ ~Has(c, a) THEN <<a>>
    ELSE LET nd == Lookup(c, a)
         IN IF nd.par = <<>> THEN <<a>> ELSE Append(Up(c, nd.par, fuel - 1), a)

Home(c, x) == {<<nd.s, nd.i>> : nd \in {m \in NodeSet(c) :
                    (\E j \in 1 .. Len(m.sing) : m.sing[j] = x) \/ (m.nest = <<>> /\ m.i = x)}}

\* kp: what the tree says is the path of dataset point x
KnownPathFaults(c, x, kp) ==
    LET H == Home(c, x)
        plain(t) == [j \in 1 .. Len(t) |-> <<t[j][1], t[j][2]>>]
    IN If("known", /\ Len(kp) > 0
                   /\ \E h \in H : plain(kp) = Up(c, h, Len(c.nodes)))
       \cup If("knowndist", \A j \in 1 .. Len(kp) : kp[j][3] = D2(c, x, kp[j][2]))
===============================================================================
