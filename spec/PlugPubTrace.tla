----------------------------- MODULE PlugPubTrace -----------------------------
(***************************************************************************)
(* Validates histories of attaching plugins to a real tree while others    *)
(* read it, recorded under a controlled scheduler, against Plugins.        *)
(***************************************************************************)
EXTENDS TraceBase, Plugins

PT == INSTANCE PlugTrace

Tree == <<0>>      \* stands for the plugins of the tree as a whole, as a node above the root
Ver(m) == IF m = <<>> THEN 0 ELSE m[1]
\* a sighting [[s, i], [m0, m1, m2]] as observations
Obs(v) == {<<<<v[1][1], v[1][2]>>, p, Ver(v[2][p + 1])>> : p \in 0 .. 2}
Seen(x) == CASE x.t = "nodes" -> UNION {Obs(x.v[j]) : j \in 1 .. Len(x.v)}
             [] x.t = "tree" -> {<<Tree, p, x.v[p + 1]>> : p \in 0 .. 2}
             [] OTHER -> {}
CarryOf(A, every) == {a \in A : a[2] % every = 0} \cup {Tree}
History(c, A) ==
    [j \in 1 .. Len(c.ev) |->
        LET x == c.ev[j]
        IN CASE x.e \in {"ab", "ae"} -> [e |-> x.e, p |-> x.p, ver |-> x.ver, carry |-> CarryOf(A, x.every)]
             [] x.e = "b" -> [e |-> "b", r |-> x.r]
             [] x.e = "e" -> [e |-> "e", r |-> x.r, obs |-> Seen(x.seen)]]

Sightings(c) == UNION {LET x == c.ev[j].seen
                       IN IF x.t = "nodes" THEN {x.v[k] : k \in 1 .. Len(x.v)} ELSE {}
                       : j \in {j \in 1 .. Len(c.ev) : c.ev[j].e = "e"}}
\* a reading taken at one moment, or held: as many nodes as there are, all views of a node alike
OneMoment(x) == /\ Len(x.v) = x.n
                /\ \A j, k \in 1 .. Len(x.v) : x.v[j][1] = x.v[k][1] => x.v[j] = x.v[k]
AnswerOk(c, x) == x.v = (IF x.k = 0 - 1 THEN c.refs[x.q + 1].path ELSE c.refs[x.q + 1].knn[x.k + 1])

Faults(c) ==
    IF c.stuck THEN {"stuck"} ELSE
    LET A == PT!Addrs(c)
        K == PT!KidsOf(c)
        O == PT!OwnOf(c)
        U == [a \in A |-> Under(K, O, a)]
        KT == [a \in A \cup {Tree} |-> IF a = Tree THEN A ELSE K[a]]
        S == Sightings(c)
        Ends == {j \in 1 .. Len(c.ev) : c.ev[j].e = "e"}
    IN HistoryFaults(History(c, A), KT)
       \cup If("structure", c.after = c.nodes)
       \cup If("moment", \A j \in Ends : c.ev[j].seen.t = "nodes" => OneMoment(c.ev[j].seen))
       \cup If("answers", \A j \in Ends : c.ev[j].seen.t = "ans" => AnswerOk(c, c.ev[j].seen))
       \* what a node carries was computed from what its children carry, of that version or a later one
       \cup If("value", \A v \in S : \A p \in 1 .. 3 : v[2][p] # <<>> =>
                    /\ v[2][p][2] = Cardinality(U[<<v[1][1], v[1][2]>>])
                    /\ \A k \in 1 .. Len(v[2][p][3]) : v[2][p][3][k] >= v[2][p][1])

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
