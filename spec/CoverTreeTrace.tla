--------------------------- MODULE CoverTreeTrace ---------------------------
(***************************************************************************)
(* Validates trees built by the real code.  Every line of the trace is one *)
(* problem together with the projection of the tree that was built for it. *)
(* The projection is walked from the root: each node must be a possible    *)
(* outcome of the builder's split of the work item its parent hands down   *)
(* (CoverTree!NodeFaults), and the walk must use every node exactly once.  *)
(***************************************************************************)
EXTENDS CoverGeom, Json, IOUtils

CONSTANT Want      \* the kinds of fault this run is about

\* CoverTree is only used for its constant-level operators here
VARIABLES l, work, seen, bad
vars == <<l, work, seen, bad>>
CT == INSTANCE CoverTree WITH prob <- 0, todo <- {}, busy <- {}, counted <- {},
                              sent <- {}, tree <- <<>>, total <- 0, done <- FALSE

Trace == ndJsonDeserialize(IOEnv.TRACE)
C == Trace[l]

NodeSet(c) == {c.nodes[j] : j \in 1 .. Len(c.nodes)}
Lookup(c, a) == CHOOSE nd \in NodeSet(c) : nd.s = a[1] /\ nd.i = a[2]
ToNode(nd) == [s |-> nd.s, i |-> nd.i, par |-> nd.par, nest |-> nd.nest, kids |-> nd.kids,
               sing |-> Range(nd.sing), rad |-> nd.rad, cov |-> nd.cov]
Kids(nd) == (IF nd.nest = <<>> THEN {} ELSE {<<nd.nest[1], nd.i>>}) \cup Range(nd.kids)

If(name, ok) == IF ok THEN {} ELSE {name}
Addrs(c) == {<<nd.s, nd.i>> : nd \in NodeSet(c)}

\* faults of the projection as a whole; these make the walk below well defined
ShapeFaults(c) ==
    If("built", c.ok)
    \cup IF ~c.ok THEN {} ELSE
    If("dangling", /\ \A nd \in NodeSet(c) : Kids(nd) \subseteq Addrs(c)
                   /\ <<c.root[1], c.root[2]>> \in Addrs(c))
    \cup If("descend", \A nd \in NodeSet(c) : \A k \in Kids(nd) : k[1] < nd.s)
    \cup If("unique", Cardinality(Addrs(c)) = Len(c.nodes))
    \* a node is stored on the layer of its scale under the index of its centre
    \cup If("layer", /\ \A nd \in NodeSet(c) : nd.layer = nd.s /\ nd.key = nd.i /\ nd.c = nd.i /\ nd.sc = nd.s
                     /\ \A j \in 1 .. Len(c.layers) :
                            LET y == c.layers[j] IN y.s = y.ls /\ y.len = Len(y.keys)
                     /\ c.count = Len(c.nodes)
                     /\ c.len = Len(c.layers))
    \* leaf flag, child and singleton counters agree with the lists
    \cup If("count", \A nd \in NodeSet(c) :
                     /\ nd.leaf = (nd.nest = <<>>)
                     /\ nd.nk = Len(nd.kids) + Len(nd.nest)
                     /\ nd.nest = <<>> => nd.kids = <<>>
                     /\ nd.ns = Len(nd.sing) /\ nd.ns = Cardinality(Range(nd.sing)))
    \cup If("depth", \A nd \in NodeSet(c) : nd.s >= c.minres - 1)
    \cup If("root", /\ c.root[2] \in Points(c)
                    /\ LET r2 == Radius2(c, c.root[2], Points(c))
                           z  == CeilLog(c, r2, c.smax)
                       IN /\ c.root[1] >= c.minres
                          /\ r2 > 0 =>
                               /\ WithinEq(c, r2, c.root[1])
                               /\ c.root[1] \in {MaxOf2(z, c.minres),
                                                  MaxOf2(IF Exactly(c, r2, z) THEN z + 1 ELSE z, c.minres)})
    \* every point has exactly one home: the one its known path ends in
    \cup If("home", \A x \in Points(c) :
            LET H == {<<nd.s, nd.i>> : nd \in {m \in NodeSet(c) :
                            x \in Range(m.sing) \/ (m.nest = <<>> /\ m.i = x)}}
                kp == c.kp[x + 1]
            IN /\ Cardinality(H) = 1
               /\ Len(kp) > 0
               /\ <<kp[Len(kp)][1], kp[Len(kp)][2]>> \in H)

RECURSIVE CovOf(_, _)
CovOf(c, a) == LET nd == Lookup(c, a)
               IN {nd.i} \cup Range(nd.sing) \cup UNION {CovOf(c, b) : b \in Kids(nd)}

Hard == {"built", "dangling", "descend", "unique"}
Known(F) == F \cap (Want \cup Hard)
Report(F, k) == IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", l, C.id, F, k>>)
\* a rejected line is reported and left; the run goes on with the next one
Skip == l' = l + 1 /\ bad' = bad + 1 /\ work' = {} /\ seen' = 0

Init == l = 1 /\ work = {} /\ seen = 0 /\ bad = 0

Open == /\ l <= Len(Trace)
        /\ work = {} /\ seen = 0
        /\ LET F == Known(ShapeFaults(C))
           IN /\ Report(F, <<>>)
              /\ IF F # {} THEN Skip
                 ELSE /\ work' = {[s |-> C.root[1], i |-> C.root[2], par |-> <<>>, cov |-> Points(C)]}
                      /\ seen' = 1
                      /\ UNCHANGED <<l, bad>>

Visit == /\ work # {}
         /\ LET w   == CHOOSE w \in work : TRUE
                raw == Lookup(C, <<w.s, w.i>>)
                nd  == ToNode(raw)
                kc  == [b \in Kids(raw) |-> CovOf(C, b)]
                F   == Known(CT!NodeFaults(C, w, nd, LAMBDA b : kc[b]))
            IN /\ Report(F, <<w.s, w.i>>)
               /\ IF F # {} THEN Skip
                  ELSE /\ work' = (work \ {w}) \cup
                            {[s |-> b[1], i |-> b[2], par |-> <<w.s, w.i>>, cov |-> kc[b]] : b \in Kids(raw)}
                       /\ seen' = seen + 1
                       /\ UNCHANGED <<l, bad>>

Close == /\ l <= Len(Trace)
         /\ work = {} /\ seen > 0
         /\ LET F == IF "unreachable" \in Want /\ seen # Len(C.nodes) + 1 THEN {"unreachable"} ELSE {}
            IN /\ Report(F, <<>>)
               /\ IF F # {} THEN Skip ELSE l' = l + 1 /\ seen' = 0 /\ work' = {} /\ UNCHANGED bad

Next == Open \/ Visit \/ Close
Spec == Init /\ [][Next]_vars

Reach == TLCSet(1, l - 1) /\ TLCSet(2, bad)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Trace), TLCGet(2)>>) /\ TLCGet(1) = Len(Trace) /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
===============================================================================
