------------------------------ MODULE MCPlugins -------------------------------
(***************************************************************************)
(* Attaching plugins to every small tree, one layer after the other from   *)
(* the smallest scale up, while readers look at nodes and layers.  The     *)
(* value of a node is computed from its own points and from the values its *)
(* children show at that moment.                                           *)
(***************************************************************************)
EXTENDS Plugins, TLC

CONSTANTS Nodes,      \* number of nodes of a tree
          Probes, Vers, Reads, Readers

N == 1 .. Nodes
VARIABLES par,        \* node -> parent, 0 for the root (node 1)
          lay,      \* node -> layer, children strictly below their parents
          own,        \* node -> its own points
          pub,        \* probe -> node -> <<>> or [ver, val] as published
          job,        \* <<>> or [p, ver, even, at]: what is being attached, next layer to do
          att,        \* number of attachments so far
          hist, busy  \* the history; what each reader is doing
vars == <<par, lay, own, pub, job, att, hist, busy>>

Kids == [a \in N |-> {b \in N : par[b] = a}]
Leaf(a) == Kids[a] = {}
Layers == 0 .. Nodes - 1
\* points: node a owns the points [a, 1] .. [a, own]
Own == [a \in N |-> {<<a, k>> : k \in 1 .. own[a]}]
U == [a \in N |-> Under(Kids, Own, a)]
Carry(even) == {a \in N : ~even \/ a % 2 = 1}

Init == /\ par \in {f \in [N -> 0 .. Nodes] : \A a \in N : IF a = 1 THEN f[a] = 0 ELSE f[a] \in 1 .. a - 1}
        /\ lay \in {f \in [N -> Layers] : \A a \in N : a # 1 => f[a] < f[par[a]]}
        /\ own \in {f \in [N -> 0 .. 1] : \A a \in N : Leaf(a) => f[a] = 1}
        /\ pub = [p \in Probes |-> [a \in N |-> <<>>]]
        /\ job = <<>> /\ att = 0 /\ hist = <<>> /\ busy = [r \in Readers |-> <<>>]

Begin(p, even) ==
    /\ job = <<>> /\ att < Vers
    /\ att' = att + 1
    /\ job' = [p |-> p, ver |-> att + 1, even |-> even, at |-> 0]
    /\ hist' = Append(hist, [e |-> "ab", p |-> p, ver |-> att + 1, carry |-> Carry(even)])
    /\ UNCHANGED <<par, lay, own, pub, busy>>

\* what node a gets: its own points and what its children show; children that do not carry it are counted directly
Value(a) == Own[a] \cup UNION {IF b \in Carry(job.even)
                               THEN (IF pub[job.p][b] = <<>> THEN {} ELSE pub[job.p][b].val)
                               ELSE U[b] : b \in Kids[a]}
Layer == /\ job # <<>> /\ job.at < Nodes
         /\ pub' = [pub EXCEPT ![job.p] =
                [a \in N |-> IF lay[a] = job.at /\ a \in Carry(job.even) THEN [ver |-> job.ver, val |-> Value(a)] ELSE @[a]]]
         /\ job' = [job EXCEPT !.at = @ + 1]
         /\ UNCHANGED <<par, lay, own, att, hist, busy>>
End == /\ job # <<>> /\ job.at = Nodes
       /\ hist' = Append(hist, [e |-> "ae", p |-> job.p, ver |-> job.ver, carry |-> Carry(job.even)])
       /\ job' = <<>>
       /\ UNCHANGED <<par, lay, own, pub, att, busy>>

Shows(a) == {<<a, p, IF pub[p][a] = <<>> THEN 0 ELSE pub[p][a].ver>> : p \in Probes}
NReads == Cardinality({j \in 1 .. Len(hist) : hist[j].e = "b"})
\* a read of one node or of a whole layer, at one moment between its begin and its end
RBegin(r) == /\ busy[r] = <<>> /\ NReads < Reads
             /\ busy' = [busy EXCEPT ![r] = <<NReads>>]
             /\ hist' = Append(hist, [e |-> "b", r |-> NReads])
             /\ UNCHANGED <<par, lay, own, pub, job, att>>
RLook(r, A) == /\ Len(busy[r]) = 1
               /\ busy' = [busy EXCEPT ![r] = <<busy[r][1], UNION {Shows(a) : a \in A}>>]
               /\ UNCHANGED <<par, lay, own, pub, job, att, hist>>
REnd(r) == /\ Len(busy[r]) = 2
           /\ hist' = Append(hist, [e |-> "e", r |-> busy[r][1], obs |-> busy[r][2]])
           /\ busy' = [busy EXCEPT ![r] = <<>>]
           /\ UNCHANGED <<par, lay, own, pub, job, att>>
Next == \/ \E p \in Probes, even \in BOOLEAN : Begin(p, even)
        \/ Layer \/ End
        \/ \E r \in Readers : RBegin(r) \/ REnd(r)
              \/ (\E a \in N : RLook(r, {a}))
              \/ \E k \in Layers : RLook(r, {b \in N : lay[b] = k})
Spec == Init /\ [][Next]_vars

\* what a node shows is the summary of the points below it, whenever it was computed
Exact == \A p \in Probes, a \in N : pub[p][a] # <<>> => pub[p][a].val = U[a]
\* a node carries a version only after all its children that should
Below == \A p \in Probes, a \in N : pub[p][a] # <<>> =>
            \A b \in Kids[a] : UpTo(hist, p, b, pub[p][a].ver) <= (IF pub[p][b] = <<>> THEN 0 ELSE pub[p][b].ver)
Complete == job = <<>> => \A p \in Probes, a \in N :
               (IF pub[p][a] = <<>> THEN 0 ELSE pub[p][a].ver) = MaxVer(hist, Attaches(hist, "ae", p, a))
Possible == HistoryFaults(hist, Kids) = {}
\* plugins with a limit: a node below the limit has children below the limit
Limits == \A a \in N, k \in 0 .. Nodes + 1 : Carries(U, a, k) => \A b \in Kids[a] : Carries(U, b, k)
\* counts add up
Totals == \A a \in N : LET c == CountsAt(Kids, Own, U, a)
                       IN c.total = c.sing + FoldSet(LAMBDA x, y : x[2] + y, 0, c.kids)
===============================================================================
