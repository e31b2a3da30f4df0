----------------------------- MODULE PersistTrace -----------------------------
(***************************************************************************)
(* Validates trees saved and loaded by the real code.  img holds what a    *)
(* reader saw before saving, after saving, after loading, and after saving *)
(* and loading what was loaded.                                            *)
(***************************************************************************)
EXTENDS TraceBase
PS == INSTANCE Persist

NodeOf(nd) == [s |-> nd.s, i |-> nd.i, cov |-> nd.cov, rad |-> nd.rad, par |-> nd.par, nest |-> nd.nest, kids |-> nd.kids,
               sing |-> {nd.sing[j] : j \in 1 .. Len(nd.sing)}]
TreeOf(g) == LET N == {NodeOf(g.nodes[j]) : j \in 1 .. Len(g.nodes)}
             IN [a \in {<<nd.s, nd.i>> : nd \in N} |-> CHOOSE nd \in N : <<nd.s, nd.i>> = a]
\* where the known path of each point ends
HomeOf(g) == [x \in 0 .. Len(g.kp) - 1 |-> LET k == g.kp[x + 1] IN IF k = <<>> THEN <<>> ELSE <<k[Len(k)][1], k[Len(k)][2]>>]

ImgFaults(c, h, g) ==
    If("params", g.params = h.params /\ g.range = h.range /\ g.len = h.len)
    \cup If("root", g.root = h.root)
    \cup If("nodes", Len(g.nodes) = Len(h.nodes) /\ g.count = h.count /\ TreeOf(g) = TreeOf(h))
    \cup If("paths", g.kp = h.kp)
    \cup If("answers", g.answers = h.answers)

Faults(c) ==
    If("saved", c.ok)
    \cup IF ~c.ok THEN {} ELSE
    LET h == c.img[1]
        T == TreeOf(h)
        f == PS!Encode(T, h.root, [minres |-> c.minres])
    IN UNION {ImgFaults(c, h, c.img[k]) : k \in 2 .. 4}
       \cup If("given", h.params = [base |-> c.base, leaf |-> c.leaf, minres |-> c.minres,
                                    single |-> c.single, part |-> c.part])
       \* the homes are what the specification recomputes from the file
       \cup If("homes", \A k \in 1 .. 4 : HomeOf(c.img[k]) = PS!HomesFrom(PS!Decode(f), f.root))

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
