------------------------------- MODULE MCBuild -------------------------------
(***************************************************************************)
(* Reproducibility, termination and failure of the builder.                *)
(*                                                                         *)
(* With a seed every random choice of the builder is a function of the     *)
(* work item alone, whatever thread splits it and whenever; here that      *)
(* function is a fixed CHOOSE.  Under every interleaving of the pool and   *)
(* the collector the finished tree is then the one a single thread makes   *)
(* (SeqTree).  Optionally any split may fail, because a point cannot be    *)
(* read: its error travels through the channel like a node does, and the   *)
(* build returns it; threads that send to the collector after that find    *)
(* nobody there and stop.                                                  *)
(***************************************************************************)
EXTENDS CoverTree

CONSTANTS N, Span, Leafs, MinRes, SMax, MayFail

VARIABLES nerr,     \* errors in the channel
          failed    \* the build has returned an error
bvars == <<vars, nerr, failed>>

MinResDef == {-1, 1}
Pow4(k) == 4 ^ k
LtOf(s) == IF s >= 0 THEN Pow4(s) ELSE 1
LeOf(s) == IF s >= 0 THEN Pow4(s) + 1 ELSE 1
SMin == Min(MinRes) - 2
Problems ==
    UNION {{[n |-> n, pts |-> pts, leaf |-> lc, minres |-> mr, single |-> sg, part |-> pt,
             smin |-> SMin, smax |-> SMax,
             lt |-> [j \in 1 .. SMax - SMin + 2 |-> LtOf(SMin + j - 1)],
             le |-> [j \in 1 .. SMax - SMin + 2 |-> LeOf(SMin + j - 1)]] :
                pts \in [1 .. n -> {<<c>> : c \in 0 .. Span}], lc \in Leafs, mr \in MinRes,
                sg \in BOOLEAN, pt \in {"first", "nearest"}} : n \in 1 .. N}

\* the seeded choices
NsOf(w) == Max(NextScales(prob, w.s, Radius2(prob, w.i, w.cov)))
PickOf(b) == CHOOSE x \in Uncovered(prob, b.w, b.K, b.ns) : TRUE

\* the tree one thread makes
RECURSIVE CentersFrom(_, _, _), SeqTree(_)
CentersFrom(w, K, ns) ==
    LET U == Uncovered(prob, w, K, ns)
    IN IF U = {} THEN K ELSE CentersFrom(w, Append(K, CHOOSE x \in U : TRUE), ns)
SeqTree(w) ==
    IF LeafRule(prob, w)
    THEN Addr(w) :> MkNode(w, <<>>, <<>>, w.cov \ {w.i}, Radius2(prob, w.i, w.cov))
    ELSE LET r == SplitResult(prob, w, CentersFrom(w, <<>>, NsOf(w)), NsOf(w))
         IN FoldSet(LAMBDA k, acc : SeqTree(k) @@ acc, Addr(w) :> r.node, r.kids)

Init == InitWith(Problems) /\ nerr = 0 /\ failed = FALSE

Keep == UNCHANGED <<nerr, failed>>
Fail(b) == /\ MayFail /\ b \in busy
           /\ busy' = busy \ {b} /\ nerr' = nerr + 1
           /\ UNCHANGED <<prob, todo, counted, sent, tree, total, done, failed>>
\* the collector takes an error out of the channel and gives up
GiveUp == /\ nerr > 0 /\ ~done /\ ~failed
          /\ nerr' = nerr - 1 /\ failed' = TRUE
          /\ UNCHANGED vars
\* a thread finds the collector gone: its node is dropped and its children are not spawned
Drop(c) == /\ failed /\ c \in counted
           /\ counted' = counted \ {c}
           /\ UNCHANGED <<prob, todo, busy, sent, tree, total, done>> /\ Keep

Next ==
    \/ /\ Keep
       /\ \/ \E w \in todo : Start(w) /\ \A b \in busy' \ busy : b.ns = NsOf(w)
          \/ \E b \in busy : Uncovered(prob, b.w, b.K, b.ns) # {} /\ PickCenter(b, PickOf(b))
          \/ \E b \in busy : Count(b)
          \/ ~failed /\ \E c \in counted : Send(c)
          \/ ~failed /\ \E nd \in sent : Receive(nd)
    \/ \E b \in busy : Fail(b)
    \/ GiveUp
    \/ \E c \in counted : Drop(c)

Spec == Init /\ [][Next]_bvars /\ WF_bvars(Next)

Reproducible == done => tree = SeqTree(RootWork(prob))
\* a failure is never hidden: the collector cannot reach its count without the failed node
FailureReported == ~(done /\ (failed \/ nerr > 0))
\* every build returns, and then the pool comes to rest
Returns == <>(done \/ failed)
Rests == <>[](todo = {} /\ busy = {} /\ counted = {})
===============================================================================
