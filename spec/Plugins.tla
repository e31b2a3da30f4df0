------------------------------- MODULE Plugins --------------------------------
(***************************************************************************)
(* What plugins mean.  A tree is given by its nodes: Kids(a) the addresses *)
(* of the children of a (the nested one included), Own(a) the points that  *)
(* stop at a: its outliers, and for a leaf its centre.                     *)
(*                                                                         *)
(* First what every kind of plugin puts on a node; then which readings of  *)
(* the nodes are possible while plugins are attached.  A history is a      *)
(* sequence of events: "ab"/"ae" begin and end of attaching version ver of *)
(* probe p, carried by the nodes in carry; "b"/"e" begin and end of read   *)
(* r, with what it saw: obs, a set of <<node, probe, version>>, version 0  *)
(* for "not there".                                                        *)
(***************************************************************************)
EXTENDS Labels

\* ------------------------------------------------ values
RECURSIVE Under(_, _, _)
Under(Kids, Own, a) == Own[a] \cup UNION {Under(Kids, Own, b) : b \in Kids[a]}
\* the same, for all nodes, from the leaves up
CountsAt(Kids, Own, U, a) ==
    [kids |-> {<<b, Cardinality(U[b])>> : b \in Kids[a]}, sing |-> Cardinality(Own[a]),
     total |-> Cardinality(U[a])]
Carries(U, a, limit) == Cardinality(U[a]) < limit
\* moments of a bag of vectors, given as a sequence
Moments(dim, v) == [n |-> Len(v), m1 |-> Moment1(dim, v), m2 |-> Moment2(dim, v)]

\* ------------------------------------------------ histories
Attaches(H, e, p, a) == {j \in 1 .. Len(H) : H[j].e = e /\ H[j].p = p /\ a \in H[j].carry}
MaxVer(H, J) == IF J = {} THEN 0 ELSE Max({H[j].ver : j \in J})
\* the readings: when they began and ended, what they saw
Readings(H) ==
    LET Began == [j \in 1 .. Len(H) |-> IF H[j].e = "e" THEN CHOOSE k \in 1 .. j : H[k].e = "b" /\ H[k].r = H[j].r ELSE 0]
    IN UNION {{[b |-> Began[j], f |-> j, a |-> o[1], p |-> o[2], ver |-> o[3]] : o \in H[j].obs}
              : j \in {j \in 1 .. Len(H) : H[j].e = "e"}}
\* versions of p a node shows that is up to date with version v of it
UpTo(H, p, a, v) == MaxVer(H, {j \in Attaches(H, "ab", p, a) : H[j].ver <= v})

HistoryFaults(H, Kids) ==
    LET R == Readings(H)
    IN UNION {
        \* nothing attached is missing, nothing shows that was not attached yet
        IF o.ver \in {0} \cup {H[j].ver : j \in Attaches(H, "ab", o.p, o.a)}
           /\ o.ver >= MaxVer(H, {j \in Attaches(H, "ae", o.p, o.a) : j < o.b})
           /\ o.ver <= MaxVer(H, {j \in Attaches(H, "ab", o.p, o.a) : j < o.f})
        THEN {} ELSE {"present"} : o \in R}
       \cup UNION {
        LET later == {x \in R : x.b > o.f /\ x.p = o.p}
        IN \* a plugin that was seen stays
           (IF \A x \in {y \in later : y.a = o.a} : x.ver >= o.ver THEN {} ELSE {"stays"})
           \* and was on the children before
           \cup (IF \A x \in {y \in later : y.a \in Kids[o.a]} : x.ver >= UpTo(H, x.p, x.a, o.ver) THEN {} ELSE {"children"})
        : o \in {x \in R : x.ver > 0}}
===============================================================================
