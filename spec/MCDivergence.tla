----------------------------- MODULE MCDivergence ------------------------------
(***************************************************************************)
(* The divergence as the code sums it, for every small prior and every     *)
(* sequence of observations: the code goes over stopping (if the prior     *)
(* allows it) and over the children there is evidence for; the definition  *)
(* goes over everything.                                                   *)
(***************************************************************************)
EXTENDS Divergence, FiniteSets

CONSTANTS MaxPrior, MaxKids, MaxObs

VARIABLES prior,    \* sequence of parameters; the first is stopping and may be 0
          seen,     \* observations of each
          order     \* the children with evidence, in the order of their first observation (as the code keeps them)
vars == <<prior, seen, order>>

Init == /\ prior \in UNION {{p \in [1 .. k -> 0 .. MaxPrior] : (\A j \in 2 .. k : p[j] > 0) /\ (k = 1 => p[1] > 0)} : k \in 1 .. MaxKids + 1}
        /\ seen = [k \in DOMAIN prior |-> 0]
        /\ order = <<>>
Total(p) == FoldLeft(LAMBDA x, y : x + y, 0, p)
Observe(k) == /\ Total(seen) < MaxObs /\ prior[k] > 0
              /\ seen' = [seen EXCEPT ![k] = @ + 1]
              /\ order' = IF k = 1 \/ \E j \in 1 .. Len(order) : order[j] = k THEN order ELSE Append(order, k)
              /\ UNCHANGED prior
\* the path that leaves the window takes its observation along, a child without evidence is forgotten
Forget(k) == /\ seen[k] > 0
             /\ seen' = [seen EXCEPT ![k] = @ - 1]
             /\ order' = IF seen[k] = 1 THEN SelectSeq(order, LAMBDA j : j # k) ELSE order
             /\ UNCHANGED prior
Next == \E k \in DOMAIN prior : Observe(k) \/ Forget(k)
Spec == Init /\ [][Next]_vars

T == Total(prior)
Coded ==
    LET part(k) == <<LnGamma(prior[k]), LnGamma(prior[k] + seen[k]), seen[k] * (Harm(prior[k]) - Harm(T))>>
        add(x, k) == <<x[1] + part(k)[1], x[2] + part(k)[2], x[3] - part(k)[3]>>
        start == IF prior[1] > 0 THEN add(<<0, 0, 0>>, 1) ELSE <<0, 0, 0>>
        sums == FoldLeft(add, start, order)
    IN LnGamma(T) - sums[1] - LnGamma(T + Total(seen)) + sums[2] + sums[3]
All == SelectSeq([k \in DOMAIN prior |-> <<prior[k], seen[k]>>], LAMBDA o : o[1] > 0)
Full == KL(T, All)

Slack == 40
Definition == Coded = Full
Positive == Full >= 0 - Slack
Nothing == Total(seen) = 0 => Full = 0
Certain == Cardinality({k \in DOMAIN prior : prior[k] > 0}) = 1 => Full <= Slack /\ Full >= 0 - Slack
\* the divergence of the posterior from the prior: the same qualities, and the two directions vanish together
Back == LET d == PostKL(T, All) IN /\ d >= 0 - Slack
                                   /\ Total(seen) = 0 => d = 0
                                   /\ Cardinality({k \in DOMAIN prior : prior[k] > 0}) = 1 => d <= Slack
                                   /\ Full > 100 * Slack => d > 0
\* evidence for one outcome alone drives the posterior further and further away
Away == \A k \in DOMAIN prior : prior[k] > 0 /\ seen[k] = Total(seen) =>
            KL(T, <<<<prior[k], seen[k] + 1>>>>) >= Full - Slack
\* and a surprising outcome moves it more than an expected one
Surprise == \A j, k \in DOMAIN prior : prior[j] > 0 /\ prior[j] <= prior[k] =>
            KL(T, <<<<prior[j], 1>>>>) + Slack >= KL(T, <<<<prior[k], 1>>>>)
================================================================================
