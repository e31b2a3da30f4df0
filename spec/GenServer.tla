------------------------------- MODULE GenServer -------------------------------
(***************************************************************************)
(* Enumerates every sequence of MaxOps tracking requests on two            *)
(* connections, for replay on the real server: <<steps, stats>>, a step    *)
(* being <<connection, request, name, argument>> (1: add the tracker with  *)
(* that window, 2: track that point, 3: the statistics of that window),    *)
(* then the statistics asked for in the end.                               *)
(***************************************************************************)
EXTENDS Server, TLC
CONSTANTS Names, Wins, Points, MaxOps
VARIABLES st, hist
gvars == <<st, hist>>
Query(name, w) == (IF name = "" THEN <<>> ELSE <<[key |-> "tracker_name", val |-> name, n |-> -1]>>)
                  \o (IF w < 0 THEN <<>> ELSE <<[key |-> "window_size", val |-> ToString(w), n |-> w]>>)
Add(name, w) == [m |-> "POST", p |-> "/track/add", q |-> Query(name, w), pt |-> 0]
Point(name, x) == [m |-> "POST", p |-> "/track/point", q |-> Query(name, -1), pt |-> x]
Stats(name, w) == [m |-> "GET", p |-> "/track/stats", q |-> Query(name, w), pt |-> 0]
\* a point stands for its path here
PathFor(x) == <<<<1, x>>>>
Requests == {<<1, n, w>> : n \in Names, w \in Wins} \cup {<<2, n, x>> : n \in Names, x \in Points} \cup {<<3, n, w>> : n \in Names, w \in Wins}
OpOf(s) == CASE s[1] = 1 -> Add(s[2], s[3]) [] s[1] = 2 -> Point(s[2], s[3]) [] OTHER -> Stats(s[2], s[3])
\* the connections are alike, and take turns unless the step before was of the same name
ConnOf(s) == IF hist = <<>> THEN 1 ELSE LET l == hist[Len(hist)] IN IF l[3] = s[2] THEN 3 - l[1] ELSE l[1]
GInit == st = Empty /\ hist = <<>>
GNext == /\ Len(hist) < MaxOps
         /\ \E s \in Requests : /\ st' = After(st, OpOf(s), IF s[1] = 2 THEN PathFor(s[3]) ELSE <<>>)
                             /\ hist' = Append(hist, <<ConnOf(s), s[1], s[2], s[3]>>)
GSpec == GInit /\ [][GNext]_gvars
Once == \A t, u \in st : t[1] = u[1] /\ t[2] = u[2] => t = u
Bounded == \A t \in st : t[2] > 0 => Len(t[3]) <= t[2]
Closing == SetToSeq({<<n, w>> : n \in Names, w \in Wins})
Emit == Len(hist) = MaxOps => PrintT(<<"PROG", hist, Closing>>)
===============================================================================
