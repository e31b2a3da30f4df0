------------------------------ MODULE MCTracker -------------------------------
(***************************************************************************)
(* Trackers as the code keeps them: running counts per node, to which a    *)
(* path is added and from which the one that leaves the window is taken.   *)
(* Two trackers over the paths of a small tree; appending one to the       *)
(* other.                                                                  *)
(***************************************************************************)
EXTENDS Tracker, TLC

CONSTANTS Windows, MaxOps
\* root 0 with children 0 and 1 (nested address 10, other 11); 11 has the nested child 21
Paths == {<<1>>, <<1, 10>>, <<1, 11>>, <<1, 11, 21>>}
T == {1, 2}

VARIABLES win,     \* tracker -> window
          count,   \* tracker -> node -> <<next or 0 for a stop>> -> count: a set of <<node, next, count>> above zero
          queue, total, n,
          means    \* tracker -> the sequence it stands for
vars == <<win, count, queue, total, n, means>>
Keys(path) == [k \in 1 .. Len(path) |-> <<path[k], IF k = Len(path) THEN 0 ELSE path[k + 1]>>]
Of(C, key) == IF \E c \in C : c[1] = key THEN (CHOOSE c \in C : c[1] = key)[2] ELSE 0
Bump(C, key, d) == LET v == Of(C, key) + d
                   IN {c \in C : c[1] # key} \cup (IF v > 0 THEN {<<key, v>>} ELSE {})
AddTo(C, path) == FoldLeft(LAMBDA X, key : Bump(X, key, 1), C, Keys(path))
TakeFrom(C, path) == FoldLeft(LAMBDA X, key : Bump(X, key, 0 - 1), C, Keys(path))

Init == /\ win \in [T -> Windows]
        /\ count = [t \in T |-> {}] /\ queue = [t \in T |-> <<>>] /\ total = [t \in T |-> 0]
        /\ means = [t \in T |-> <<>>] /\ n = 0
RECURSIVE Trim(_, _, _)
Trim(w, C, q) == IF Len(q) > w THEN Trim(w, TakeFrom(C, q[1]), Tail(q)) ELSE [c |-> C, q |-> q]
Settle(t, C, q) == LET x == IF win[t] = 0 THEN [c |-> C, q |-> <<>>] ELSE Trim(win[t], C, q)
                   IN count' = [count EXCEPT ![t] = x.c] /\ queue' = [queue EXCEPT ![t] = x.q]
SeqLen(t) == IF win[t] = 0 THEN total[t] ELSE Len(queue[t])
Add(t, path) ==
    /\ Settle(t, AddTo(count[t], path), Append(queue[t], path))
    /\ total' = [total EXCEPT ![t] = @ + 1]
    /\ means' = [means EXCEPT ![t] = Added(win[t], @, path)]
    /\ UNCHANGED win
\* an unlimited tracker keeps no paths, so a limited one cannot take them over
App(t, u) ==
    /\ win[t] = 0 \/ win[u] # 0
    /\ Settle(t, FoldSet(LAMBDA c, X : Bump(X, c[1], c[2]), count[t], count[u]), queue[t] \o queue[u])
    /\ total' = [total EXCEPT ![t] = @ + SeqLen(u)]
    /\ means' = [means EXCEPT ![t] = Appended(win[t], @, means[u])]
    /\ UNCHANGED win
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E t \in T : (\E p \in Paths : Add(t, p)) \/ (\E u \in T : u # t /\ App(t, u))
Spec == Init /\ [][Next]_vars

Nodes == {1, 10, 11, 21}
Sum == \A t \in T :
    /\ \A a \in Nodes : LET e == Evidence(means[t], a)
                        IN /\ e.stop = Of(count[t], <<a, 0>>)
                           /\ e.kids = {<<c[1][2], c[2]>> : c \in {c \in count[t] : c[1][1] = a /\ c[1][2] # 0}}
    /\ Touched(means[t]) = {c[1][1] : c \in count[t]}
    /\ SeqLen(t) = Len(means[t])
Bounded == \A t \in T : win[t] > 0 => Len(queue[t]) <= win[t]
===============================================================================
