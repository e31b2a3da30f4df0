------------------------------ MODULE TrackTrace ------------------------------
(***************************************************************************)
(* Validates programs on real trackers against Tracker, and the            *)
(* divergences they report against Divergence.                             *)
(***************************************************************************)
EXTENDS TraceBase, Tracker, Divergence
PT == INSTANCE PlugTrace
CONSTANT Want      \* "state" or "kl"

Path(c, q) == [k \in 1 .. Len(c.paths[q]) |-> <<c.paths[q][k][1], c.paths[q][k][2]>>]
Step(c, M, op) == LET t == op.t + 1
                  IN IF op.app THEN [M EXCEPT ![t] = Appended(c.wins[t], @, M[3 - t])]
                     ELSE [M EXCEPT ![t] = Added(c.wins[t], @, Path(c, op.q + 1))]
Means(c, k) == FoldLeft(LAMBDA M, op : Step(c, M, op), <<<<>>, <<>>>>, SubSeq(c.ops, 1, k))

Diff(x, y) == IF x > y THEN x - y ELSE y - x
KidSet(v) == {<<<<v[k][1], v[k][2]>>, v[k][3]>> : k \in 1 .. Len(v)}
Addr(x) == <<x.s, x.i>>

\* the parameters of a node: for each child the points below it, for stopping there the node's own points
Prior(K, O, U, a, b) == IF b = <<>> THEN Cardinality(O[a]) ELSE Cardinality(U[b])
Count(e, b) == IF b = <<>> THEN e.stop
               ELSE IF \E x \in e.kids : x[1] = b THEN (CHOOSE x \in e.kids : x[1] = b)[2] ELSE 0
NearProb(p, num, den) == Diff(p * den, num * 1000000) <= 2 * den
\* a probability vector says num(b) / den for every child and for stopping
VectorOk(v, K, a, Num(_), den) ==
    IF den = 0 THEN v = <<>>
    ELSE /\ Len(v) = 1
         /\ NearProb(v[1].stop, Num(<<>>), den)
         /\ \A x \in KidSet(v[1].kids) : x[1] \in K[a] /\ NearProb(x[2], Num(x[1]), den)
         /\ \A b \in K[a] : Num(b) > 0 => \E x \in KidSet(v[1].kids) : x[1] = b
         /\ Cardinality(KidSet(v[1].kids)) = Len(v[1].kids)

StateFaults(v, s, K, O, U) ==
    LET E == [a \in DOMAIN K |-> Evidence(s, a)]
        T == Touched(s)
        Total(a) == E[a].stop + FoldSet(LAMBDA x, y : x[2] + y, 0, E[a].kids)
        Big(S) == Max({Cardinality(U[a]) : a \in S})
        Scales == {a[1] : a \in T}
        On(z) == {a \in T : a[1] = z}
        Cover(S) == FoldSet(LAMBDA a, y : Cardinality(U[a]) + y, 0, S)
    IN If("length", v.len = Len(s) /\ v.flen = Len(s) /\ v.stats.len = Len(s))
       \cup If("evidence", /\ {Addr(v.ev[k]) : k \in 1 .. Len(v.ev)} = T
                           /\ \A k \in 1 .. Len(v.ev) : LET x == v.ev[k] IN
                                KidSet(x.kids) = E[Addr(x)].kids /\ x.stop = E[Addr(x)].stop)
       \cup If("vectors", \A k \in 1 .. Len(v.prob) :
                LET x == v.prob[k]
                    a == Addr(x)
                IN /\ VectorOk(x.post, K, a, LAMBDA b : Prior(K, O, U, a, b) + Count(E[a], b), Cardinality(U[a]) + Total(a))
                   /\ VectorOk(x.evid, K, a, LAMBDA b : Count(E[a], b), Total(a)))
       \cup If("touched", {<<v.kl[k][1], v.kl[k][2]>> : k \in 1 .. Len(v.kl)} = T /\ Len(v.kl) = Cardinality(T))
       \cup If("layers", /\ {<<v.layers[k][1], v.layers[k][2]>> : k \in 1 .. Len(v.layers)} = {<<z, Cardinality(On(z))>> : z \in Scales}
                         /\ v.nlayers[1] = v.nlayers[3] /\ v.nlayers[2] = v.nlayers[3]
                         /\ {v.weights[k][1] : k \in 1 .. Len(v.weights)} = Scales
                         /\ \A k \in 1 .. Len(v.weights) : LET S == On(v.weights[k][1])
                                IN Diff(v.weights[k][2] * Big(S), 1000 * Cover(S)) <= 2 * Big(S))
       \* nothing remains of what left the window
       \cup If("fresh", /\ Len(v.kl) = Len(v.fkl)
                        /\ \A k \in 1 .. Len(v.kl) : v.kl[k][1] = v.fkl[k][1] /\ v.kl[k][2] = v.fkl[k][2] /\ Diff(v.kl[k][3], v.fkl[k][3]) <= 2
                        /\ Diff(v.div, v.fdiv) <= 2)

Outcomes(K, O, U, E, a) ==
    SetToSeq({<<Prior(K, O, U, a, b), Count(E, b), b>> : b \in {x \in K[a] \cup {<<>>} : Count(E, x) > 0}})
\* the statistics over the nodes whose divergence is not zero
StatFaults(v) ==
    LET N == Len(v.kl)
        Nz == SelectSeq(v.kl, LAMBDA x : x[3] > 0)
        milli(x) == x[3] \div 1000
        hund(x) == x[3] \div 10000
    IN If("statistics",      /\ v.stats.nz = Len(Nz)
                             /\ Diff(v.stats.m1, SumBy(Nz, LAMBDA x : x[3])) <= N + 1
                             \* in ten thousandths, and in millionths where those numbers are small enough
                             /\ Diff(v.stats.m2h, SumBy(Nz, LAMBDA x : hund(x) * hund(x))) <= SumBy(Nz, LAMBDA x : 3 * hund(x) + 4)
                             /\ v.stats.m2h < 2000000 => Diff(v.stats.m2, SumBy(Nz, LAMBDA x : milli(x) * milli(x))) <= SumBy(Nz, LAMBDA x : 3 * milli(x) + 4)
                             /\ Nz # <<>> => /\ v.stats.max = Max({Nz[k][3] : k \in 1 .. Len(Nz)})
                                             /\ v.stats.min = Min({Nz[k][3] : k \in 1 .. Len(Nz)}))
\* over so many points a divergence of zero may come out as just above it
BigStatFaults(v) ==
    If("statistics", v.stats.nz >= Len(SelectSeq(v.kl, LAMBDA x : x[3] > 0)))
    \cup (IF v.stats.nz = Len(SelectSeq(v.kl, LAMBDA x : x[3] > 0)) THEN StatFaults(v) ELSE {})
KlFaults(v, s, K, O, U) ==
    LET N == Len(v.kl)
    IN If("divergence", \A k \in 1 .. N :
            LET a == <<v.kl[k][1], v.kl[k][2]>>
                out == Outcomes(K, O, U, Evidence(s, a), a)
                want == KL(Cardinality(U[a]), out)
            IN \* outside the support of the prior there is no divergence to speak of
               (\A j \in 1 .. Len(out) : out[j][1] > 0) => Diff(v.kl[k][3], IF want < 0 THEN 0 ELSE want) <= 200 + 2 * Len(s))
       \* the whole tree as one distribution over where points stop: one more than the points that did, for every node
       \cup If("whole-tree", LET stops == SetToSeq({a \in DOMAIN K : Evidence(s, a).stop > 0})
                                 want == PostKL(Cardinality(DOMAIN K) + Cardinality(UNION {O[a] : a \in DOMAIN K}),
                                                [k \in 1 .. Len(stops) |-> <<Cardinality(O[stops[k]]) + 1, Evidence(s, stops[k]).stop>>])
                             IN Diff(v.div, IF want < 0 THEN 0 ELSE want) <= 200 + 2 * Len(s))
       \cup StatFaults(v)

\* a baseline: moments over n sequences at some lengths; the mean and variance at length i, in thousandths
Scaled(c, k, j) == LET m == c.sums[k][j] IN <<c.n * m[1], c.n * m[2] - m[1] * m[1]>>    \* n^2 mean, n^2 variance
AskOk(c, x) ==
    LET L == Len(c.lens)
        below == {k \in 1 .. L : c.lens[k] <= x.i}
        k == IF below = {} THEN 0 ELSE Max(below)
        nn == c.n * c.n
        Is(got, want, den) == Diff(got * den * nn, 1000 * want) <= den * nn
    IN \A j \in 1 .. 5 : \A z \in 1 .. 2 :
         IF k = 0 THEN x.got[j][z] = 0
         ELSE IF c.lens[k] = x.i \/ L = 1 THEN Is(x.got[j][z], Scaled(c, k, j)[z], 1)
         ELSE LET p == IF k = L THEN k - 1 ELSE k
                  den == c.lens[p + 1] - c.lens[p]
                  a == Scaled(c, p, j)[z]
                  b == Scaled(c, p + 1, j)[z]
              IN Is(x.got[j][z], a * den + (x.i - c.lens[p]) * (b - a), den)
TrainFaults(c) ==
    LET total == IF c.cap = 0 \/ c.cap > c.n THEN c.n ELSE c.cap
        samples == {i \in 0 .. total - 1 : i % c.rate = 0}
    IN If("lengths", /\ c.lens = [k \in 1 .. Cardinality(samples) |-> (k - 1) * c.rate + 1]
                     /\ c.nstats = Len(c.lens) /\ c.gotseq = c.nseq)
       \cup If("whole", c.last # <<>> /\ c.all # <<>> =>
                \A j \in 1 .. 5 : Diff(c.last[1][j][1], c.all[j]) <= 2 /\ Diff(c.last[1][j][2], 0) <= 2)

\* the distributions at one node; the outcomes are the children and, last, stopping there
LnOf(n, total, x) == IF n = 0 THEN x = <<1>> ELSE Len(x) = 1 /\ Diff(x[1], LnTable[n] - LnTable[total]) <= 3
PdfOk(c, d, total) ==      \* d.n in units of 1/u, their total, u cancels
    /\ Len(d.n) = c.outs + 1
    /\ \A k \in 1 .. c.outs + 1 : LnOf(d.n[k], total, d.pdf[k])
    /\ d.pdf[c.outs + 2] = <<1>>
Sum(n) == SumBy(n, LAMBDA x : x)
\* KL(P || Q) of counts, defined if Q is possible wherever P is
CatKl(p, q, got) ==
    IF Sum(p) = 0 \/ Sum(q) = 0 \/ (\E k \in 1 .. Len(p) : p[k] > 0 /\ q[k] = 0) THEN got = <<>>
    ELSE LET term(k) == IF p[k] = 0 THEN 0 ELSE p[k] * (LnTable[p[k]] - LnTable[q[k]] - LnTable[Sum(p)] + LnTable[Sum(q)])
         IN Len(got) = 1 /\ Diff(got[1] * Sum(p), SumBy([k \in 1 .. Len(p) |-> k], term)) <= 8 * Sum(p)
Pairs(p, e) == SelectSeq([k \in 1 .. Len(p) |-> <<p[k], e[k]>>], LAMBDA o : o[2] > 0)
DirKl(p, e, got) ==
    (\A k \in 1 .. Len(p) : e[k] > 0 => p[k] > 0) =>
        LET want == KL(Sum(p), Pairs(p, e)) IN Len(got) = 1 /\ Diff(got[1], IF want < 0 THEN 0 ELSE want) <= 200
Drawn(c, s) == LET p == c.cats[1].n IN
    /\ \A k \in 1 .. Len(s) : s[k] > 0 /\ p[s[k]] > 0
    /\ \A k \in 1 .. Len(p) : 4 * p[k] >= Sum(p) => \E j \in 1 .. Len(s) : s[j] = k
Double(n) == [k \in 1 .. Len(n) |-> 2 * n[k]]
Both(m, n) == [k \in 1 .. Len(n) |-> m[k] + n[k]]
DistFaults(c) ==
    LET p == c.cats[1].n
        e == c.cats[2].n
        want == <<Double(p), Double(Both(p, e)), Double(Both(p, e)), p, Double(e), Double(e)>>
    IN If("categorical", \A k \in 1 .. 3 : LET d == c.cats[k] IN
            /\ d.tot = 1000000 * Sum(d.n)
            /\ IF Sum(d.n) = 0 THEN \A j \in 1 .. Len(d.pdf) : d.pdf[j] = <<>> ELSE PdfOk(c, d, Sum(d.n)))
       \cup If("categorical-kl", \A j, k \in 1 .. 3 : CatKl(c.cats[j].n, c.cats[k].n, c.kl[j][k]))
       \cup If("dirichlet", Len(c.dirs) = (IF Sum(e) > 0 THEN 6 ELSE 4) /\ \A k \in 1 .. Len(c.dirs) : LET d == c.dirs[k] IN
            /\ d.n = want[k] /\ d.tot = 500000 * Sum(d.n)
            /\ PdfOk(c, d, Sum(d.n))
            /\ \A j \in 1 .. c.outs + 1 : IF k > 4 /\ e[j] = 0 THEN d.lv[j] \in {<<>>, <<1>>} ELSE LnOf(d.n[j], Sum(d.n), d.lv[j]))
       \cup If("dirichlet-kl", /\ DirKl(p, [k \in 1 .. Len(p) |-> 0], c.dkl[1])
                               /\ DirKl(p, e, c.dkl[2]) /\ DirKl(p, e, c.dkl[3]) /\ DirKl(p, c.cats[3].n, c.dkl[4])
                               /\ (\A k \in 1 .. Len(p) : e[k] > 0 => p[k] > 0) =>
                                    LET w == PostKL(Sum(p), Pairs(p, e)) IN Len(c.dkl[5]) = 1 /\ Diff(c.dkl[5][1], IF w < 0 THEN 0 ELSE w) <= 200)
       \cup If("samples", \A k \in 1 .. Len(c.smp) : Drawn(c, c.smp[k]))

\* diagonal Gaussians with whole means and deviations, in millionths
GaussDefined(g) == g.n > 0 /\ \A k \in 1 .. Len(g.s) : g.s[k] > 0
GaussKl(c, p, q) ==
    SumBy([k \in 1 .. c.dim |-> k], LAMBDA k :
        LET d == p.m[k] - q.m[k]
        IN (1000000 * (p.s[k] * p.s[k] + d * d)) \div (q.s[k] * q.s[k]) - 1000000 + 2 * LnTable[q.s[k]] - 2 * LnTable[p.s[k]]) \div 2
GaussLn(c, p) ==
    0 - SumBy([k \in 1 .. c.dim |-> k], LAMBDA k :
        LET d == p.m[k] - c.x[k]
        IN (1000000 * d * d) \div (p.s[k] * p.s[k]) + 2 * LnTable[p.s[k]] + 1837877) \div 2
Abs(x) == IF x < 0 THEN 0 - x ELSE x
GaussFaults(c) ==
    If("gaussian-kl", \A j, k \in 1 .. 3 :
        LET p == c.gs[j]
            q == c.gs[k]
        IN IF GaussDefined(p) /\ GaussDefined(q)
           THEN LET want == GaussKl(c, p, q) IN Len(c.kl[j][k]) = 1 /\ Diff(c.kl[j][k][1], want) <= 100 + Abs(want) \div 20000
           ELSE c.kl[j][k] = <<>>)
    \cup If("gaussian-pdf", \A j \in 1 .. 3 : GaussDefined(c.gs[j]) =>
           LET want == GaussLn(c, c.gs[j]) IN Len(c.pdf[j]) = 1 /\ Diff(c.pdf[j][1], want) <= 100 + Abs(want) \div 20000)
    \* 3000 draws: the mean within a ninth of the deviation (6 standard errors), the variance within a sixth
    \cup If("gaussian-samples", c.gs[1].n > 0 => c.sizes = <<c.dim>> /\ \A k \in 1 .. c.dim :
           LET m == c.gs[1].m[k]
               s == c.gs[1].s[k]
               v == c.m2[k] - (c.m1[k] * c.m1[k]) \div 1000
           IN Diff(9 * c.m1[k], 9000 * m) <= 1000 * s + 9 /\ Diff(6 * v, 6000 * s * s) <= 1000 * s * s + 60)

Faults(c) ==
    IF ~c.ok THEN {"works"}
    ELSE IF c.kind # "track" THEN
        (IF Want # "kl" THEN {} ELSE IF c.kind = "train" THEN TrainFaults(c) ELSE IF c.kind = "dist" THEN DistFaults(c)
         ELSE IF c.kind = "stats" THEN UNION {BigStatFaults(c.at[k]) : k \in 1 .. Len(c.at)}
         ELSE IF c.kind = "gauss" THEN GaussFaults(c)
         ELSE If("baseline", \A k \in 1 .. Len(c.asks) : AskOk(c, c.asks[k])))
    ELSE
    LET K == PT!KidsOf(c)
        O == PT!OwnOf(c)
        U == [a \in PT!Addrs(c) |-> PT!Under(K, O, a)]
    IN UNION {LET M == Means(c, k)
              IN UNION {IF Want = "kl" THEN KlFaults(c.ops[k].now[t], M[t], K, O, U)
                                       ELSE StateFaults(c.ops[k].now[t], M[t], K, O, U) : t \in 1 .. 2}
              : k \in {k \in 1 .. Len(c.ops) : c.ops[k].now # <<>>}}

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
