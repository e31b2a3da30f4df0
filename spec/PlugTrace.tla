------------------------------ MODULE PlugTrace -------------------------------
(***************************************************************************)
(* Validates what the nodes of real trees carry after each of a sequence   *)
(* of attachments, and programs on the Gaussian, against Plugins.          *)
(***************************************************************************)
EXTENDS TraceBase, Plugins

Node(c, a) == LET j == CHOOSE j \in 1 .. Len(c.nodes) : c.nodes[j].s = a[1] /\ c.nodes[j].i = a[2] IN c.nodes[j]
Addrs(c) == {<<c.nodes[j].s, c.nodes[j].i>> : j \in 1 .. Len(c.nodes)}
KidsOf(c) == [a \in Addrs(c) |-> LET nd == Node(c, a)
                IN (IF nd.nest = <<>> THEN {} ELSE {<<nd.nest[1], nd.i>>}) \cup {<<nd.kids[k][1], nd.kids[k][2]>> : k \in 1 .. Len(nd.kids)}]
OwnOf(c) == [a \in Addrs(c) |-> LET nd == Node(c, a)
                IN ToSet(nd.sing) \cup (IF nd.nest = <<>> THEN {nd.i} ELSE {})]

\* what is attached after the first k operations
Clear == [cat |-> FALSE, dir |-> FALSE, idx |-> 0, gauss |-> <<>>, lab |-> FALSE, meta |-> FALSE]
Attach(s, op) == CASE op.op = "cat" -> [s EXCEPT !.cat = TRUE]
                   [] op.op = "dir" -> [s EXCEPT !.dir = TRUE]
                   [] op.op = "idx" -> [s EXCEPT !.idx = Max({@, op.max})]
                   [] op.op = "gauss" -> [s EXCEPT !.gauss = <<op.rec>>]
                   [] op.op = "lab" -> [s EXCEPT !.lab = TRUE]
                   [] op.op = "meta" -> [s EXCEPT !.meta = TRUE]
                   [] op.op = "reload" -> Clear
State(c, k) == FoldLeft(Attach, Clear, SubSeq(c.ops, 1, k))

Opt(x, there, Ok(_)) == IF there THEN Len(x) = 1 /\ Ok(x[1]) ELSE x = <<>>
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
CountOk(r, want) == /\ Distinct(r.kids)
                    /\ {<<<<r.kids[k][1], r.kids[k][2]>>, r.kids[k][3]>> : k \in 1 .. Len(r.kids)} = want.kids
                    /\ r.sing = want.sing /\ r.total = want.total
Bag(vals, P) == LET s == SetToSeq(P) IN [k \in 1 .. Len(s) |-> vals[s[k] + 1]]
ItemOf(x) == IF x = <<>> THEN <<>> ELSE x[1]
ViewFaults(c, k, K, O, U) ==
    LET now == c.ops[k].now
        st == State(c, k)
    IN If("nodes", Len(now) = Len(c.nodes) /\ {<<now[j].s, now[j].i>> : j \in 1 .. Len(now)} = Addrs(c))
       \cup UNION {LET v == now[j]
                       a == <<v.s, v.i>>
                       want == CountsAt(K, O, U, a)
                   IN If("categorical", Opt(v.cat, st.cat, LAMBDA r : CountOk(r, want)))
                      \cup If("dirichlet", Opt(v.dir, st.dir, LAMBDA r : CountOk(r, want)))
                      \cup If("indexes", Opt(v.idx, Carries(U, a, st.idx), LAMBDA r : Distinct(r) /\ ToSet(r) = U[a]))
                      \cup If("gaussian", Opt(v.gauss, st.gauss # <<>>, LAMBDA r :
                                r = Moments(c.dim, Bag(c.pts, IF st.gauss[1] THEN U[a] ELSE O[a]))))
                      \cup If("labels", Opt(v.lab, st.lab, LAMBDA r :
                                RegOk(IF c.vec THEN "vec" ELSE "cat", r, Bag([x \in 1 .. Len(c.labs) |-> ItemOf(c.labs[x])], U[a]))))
                      \cup If("meta", Opt(v.meta, st.meta, LAMBDA r :
                                RegOk("int", r, Bag([x \in 1 .. Len(c.meta) |-> ItemOf(c.meta[x])], U[a]))))
                   : j \in 1 .. Len(now)}

\* programs on three Gaussians, each standing for a bag of points
Step(B, op) == LET d == op.d + 1
               IN CASE op.op = "add" -> [B EXCEPT ![d] = Append(@, op.x)]
                    [] op.op = "rem" -> [B EXCEPT ![d] = RemoveAt(@, CHOOSE j \in 1 .. Len(@) : @[j] = op.x)]
                    [] op.op = "new" -> [B EXCEPT ![d] = <<>>]
                    [] op.op = "merge" -> [B EXCEPT ![d] = @ \o B[op.s + 1]]
Bags(c, k) == FoldLeft(Step, <<<<>>, <<>>, <<>>>>, SubSeq(c.ops, 1, k))
Near(x, y, size) == Abs(x - y) <= 1 + size \div 100000
GaussOk(dim, r, b) ==
    /\ r.n = Len(b) /\ r.m1 = Moment1(dim, b) /\ r.m2 = Moment2(dim, b) /\ r.dim = dim
    \* mean and variance come from divisions: right up to rounding
    /\ r.n > 0 => \A k \in 1 .. dim :
            /\ Near(r.mean[k], r.m1[k], Abs(r.m1[k]))
            /\ Near(r.var[k], r.n * r.m2[k] - r.m1[k] * r.m1[k], r.n * r.m2[k])

Faults(c) ==
    IF ~c.ok THEN {"works"}
    ELSE IF c.kind = "gauss"
    THEN If("program", \A k \in 1 .. Len(c.ops) : LET B == Bags(c, k) IN \A r \in 1 .. 3 : GaussOk(c.dim, c.ops[k].now[r], B[r]))
    ELSE LET K == KidsOf(c)
             O == OwnOf(c)
             U == [a \in Addrs(c) |-> Under(K, O, a)]
         IN If("structure", c.after = c.nodes)
            \cup UNION {ViewFaults(c, k, K, O, U) : k \in {k \in 1 .. Len(c.ops) : c.ops[k].now # <<>>}}

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
