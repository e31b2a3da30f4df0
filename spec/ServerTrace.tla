------------------------------ MODULE ServerTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of the real server: requests on several    *)
(* connections overlap, are pipelined, arrive in pieces or are abandoned.  *)
(* There has to be an order of the tracking requests, each between its     *)
(* call and its answer, in which the answers are those of Server.          *)
(***************************************************************************)
EXTENDS TraceBase, Server, Divergence
PT == INSTANCE PlugTrace
CONSTANT Want      \* "state" or "answers"

Diff(x, y) == IF x > y THEN x - y ELSE y - x
Prior(O, U, a, b) == IF b = <<>> THEN Cardinality(O[a]) ELSE Cardinality(U[b])
Count(e, b) == IF b = <<>> THEN e.stop
               ELSE IF \E x \in e.kids : x[1] = b THEN (CHOOSE x \in e.kids : x[1] = b)[2] ELSE 0
Outcomes(K, O, U, E, a) ==
    SetToSeq({<<Prior(O, U, a, b), Count(E, b), b>> : b \in {x \in K[a] \cup {<<>>} : Count(E, x) > 0}})
Within(out) == \A j \in 1 .. Len(out) : out[j][1] > 0
\* the statistics of the paths s, as far as the divergences are defined
StatsOk(K, O, U, s, res) ==
    LET nodes == Touched(s)
        outs == [a \in nodes |-> Outcomes(K, O, U, Evidence(s, a), a)]
        kl == [a \in nodes |-> KL(Cardinality(U[a]), outs[a])]
        clear == {a \in nodes : kl[a] > 200}
        sum == FoldSet(LAMBDA a, x : x + (IF kl[a] > 0 THEN kl[a] ELSE 0), 0, nodes)
    IN /\ res.len = Len(s)
       /\ (\A a \in nodes : Within(outs[a])) =>
            /\ res.nz >= Cardinality(clear) /\ res.nz <= Cardinality(nodes)
            /\ Diff(res.m1, sum) <= 200 * (Cardinality(nodes) + 1)
            /\ clear # {} => Diff(res.max, Max({kl[a] : a \in nodes})) <= 200

Replies(c, o) == {k \in 1 .. Len(c.ev) : c.ev[k].e \in {"r", "x"} /\ c.ev[k].o = o}
EndOf(c, o) == CHOOSE k \in Replies(c, o) : TRUE
Left(c, o) == c.ev[EndOf(c, o)].e = "x"
ResOf(c, o) == c.ev[EndOf(c, o)].res
PathOf(c, op) == IF op.pt = 0 \/ ~c.points[op.pt].ok THEN <<>>
                 ELSE LET p == c.points[op.pt].path IN [k \in 1 .. Len(p) |-> <<p[k][1], p[k][2]>>]

\* every request is called once, and answered or abandoned once
RepliesOk(c) == \A o \in 1 .. Len(c.ops) :
                    /\ Cardinality({k \in 1 .. Len(c.ev) : c.ev[k].e = "c" /\ c.ev[k].o = o}) = 1
                    /\ Cardinality(Replies(c, o)) = 1
\* the load of a connection is the number of its requests that have neither been answered nor abandoned
LoadOk(c, k) == c.ev[k].e = "l" =>
    LET mine == {o \in 1 .. Len(c.ops) : c.ops[o].conn = c.ev[k].conn}
        before(kinds) == {c.ev[j].o : j \in {j \in 1 .. k - 1 : c.ev[j].e \in kinds /\ c.ev[j].o \in mine}}
    IN c.ev[k].n = Cardinality(before({"c"})) - Cardinality(before({"r", "x"}))
PureOk(c, o) ==
    LET op == c.ops[o]
        rt == Route(op)
        res == ResOf(c, o)
        Ref(k) == CHOOSE r \in {c.refs[o][j] : j \in 1 .. Len(c.refs[o])} : r.k = k
        Is(r) == IF r.ok THEN res.t = rt /\ res.v = r.v ELSE res.t = "err"
    IN CASE rt = "none" -> res.t = "err"
         [] rt = "/" -> res.t = "/" /\ res.v = c.about
         [] rt = "/path" -> Is(Ref(0))
         [] rt \in {"/knn", "/routing_knn"} -> Is(Ref(NumberOf(op.q, "k", 10)))
         [] OTHER -> res.t \notin {"closed", "other"}
            
\* The states one name's trackers may be in, each with the requests that have taken effect but not been answered yet.
\* A request whose answer says that it changes nothing takes effect as soon as that answer fits: that rules out nothing.
Writes(c, o) == IF Left(c, o) THEN Route(c.ops[o]) \in {"/track/add", "/track/point"}
                ELSE ResOf(c, o).t \in {"add", "track"} /\ ResOf(c, o).ok
RECURSIVE Close(_, _, _, _, _, _)
Close(c, pend, S, K, O, U) ==
    LET next(x, o) == After(x.st, c.ops[o], PathOf(c, c.ops[o]))
        may(x, o) == \/ Left(c, o)
                     \/ Answer(x.st, c.ops[o], PathOf(c, c.ops[o]), ResOf(c, o), LAMBDA s, r : StatsOk(K, O, U, s, r))
        idle(x) == [x EXCEPT !.lin = @ \cup {o \in pend \ x.lin : ~Writes(c, o) /\ may(x, o)}]
        from == {idle(x) : x \in S}
        more == UNION {{[st |-> next(x, o), lin |-> x.lin \cup {o}] : o \in {o \in pend \ x.lin : Writes(c, o) /\ may(x, o)}} : x \in from}
    IN IF more = {} THEN from ELSE from \cup Close(c, pend, more, K, O, U)
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(c, name, k, pend, S, K, O, U) ==
    IF S = {} THEN FALSE
    ELSE IF k > Len(c.ev) THEN TRUE
    ELSE LET e == c.ev[k]
             mine == e.e \in {"c", "r"} /\ Route(c.ops[e.o]) \in Stateful /\ NameOf(c.ops[e.o].q) = name
         IN IF mine /\ e.e = "c" THEN Walk(c, name, k + 1, pend \cup {e.o}, S, K, O, U)
            ELSE IF mine THEN
                 LET T == {x \in Close(c, pend, S, K, O, U) : e.o \in x.lin}
                 IN Walk(c, name, k + 1, pend \ {e.o}, {[x EXCEPT !.lin = @ \ {e.o}] : x \in T}, K, O, U)
            ELSE Walk(c, name, k + 1, pend, S, K, O, U)
\* trackers of different names share nothing, so an order for each name gives an order for all
NamesIn(c) == {NameOf(c.ops[o].q) : o \in {o \in 1 .. Len(c.ops) : Route(c.ops[o]) \in Stateful}}

Faults(c) ==
    IF ~c.ok THEN {"works"}
    ELSE IF ~c.done \/ ~RepliesOk(c) THEN {"answered"}
    ELSE IF Want = "answers" THEN
       If("answer", \A o \in 1 .. Len(c.ops) : Left(c, o) \/ PureOk(c, o))
       \cup If("load", \A k \in 1 .. Len(c.ev) : LoadOk(c, k))
    ELSE
    LET K == PT!KidsOf(c)
        O == PT!OwnOf(c)
        U == [a \in PT!Addrs(c) |-> PT!Under(K, O, a)]
    IN If("order", \A name \in NamesIn(c) : Walk(c, name, 1, {}, {[st |-> Empty, lin |-> {}]}, K, O, U))

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
================================================================================
