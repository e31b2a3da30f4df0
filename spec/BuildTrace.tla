------------------------------ MODULE BuildTrace ------------------------------
(***************************************************************************)
(* Validates builds of one problem repeated under different pool sizes and *)
(* schedules (runs: the distinct outcomes) and over clouds some of whose   *)
(* points cannot be read (faults).  The specification is MCBuild: every    *)
(* build returns; with a seed the tree is the same each time; an error the *)
(* cloud reported to the builder is what the build returns.                *)
(***************************************************************************)
EXTENDS TraceBase

\* the tree as a map from addresses to nodes
TreeOf(t) == [root |-> t.root, range |-> t.range, kp |-> t.kp,
              nodes |-> [a \in {<<t.nodes[j].s, t.nodes[j].i>> : j \in 1 .. Len(t.nodes)} |->
                            LET nd == CHOOSE nd \in {t.nodes[j] : j \in 1 .. Len(t.nodes)} : nd.s = a[1] /\ nd.i = a[2]
                            IN [par |-> nd.par, nest |-> nd.nest, kids |-> nd.kids, leaf |-> nd.leaf,
                                sing |-> {nd.sing[j] : j \in 1 .. Len(nd.sing)}, cov |-> nd.cov, rad |-> nd.rad]]]

Faults(c) ==
    If("returns", c.crash = <<>> /\ \A j \in 1 .. Len(c.runs) : c.runs[j].res = "tree")
    \cup If("ran", c.crash = <<>> => c.builds >= 6)
    \cup If("same", Len(c.runs) <= 1 \/ Cardinality({TreeOf(c.runs[j].tree) : j \in 1 .. Len(c.runs)}) = 1)
    \cup If("error", \A j \in 1 .. Len(c.faults) :
                        LET f == c.faults[j]
                        IN /\ f.res \in {"tree", "err"}
                           /\ f.res = "err" <=> f.reported)

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
