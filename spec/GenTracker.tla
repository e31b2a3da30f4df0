------------------------------ MODULE GenTracker ------------------------------
(***************************************************************************)
(* Enumerates every behaviour of MCTracker up to MaxOps steps, for replay  *)
(* on the real trackers: <<windows, steps>>, a step being a tracker and    *)
(* the path it is given (0: the other tracker is appended to it).          *)
(***************************************************************************)
EXTENDS MCTracker
VARIABLE hist
PathNo == <<<<1, 11, 21>>, <<1, 11>>, <<1, 10>>, <<1>>>>
GInit == Init /\ hist = <<>>
GNext == /\ n < MaxOps /\ n' = n + 1
         /\ \E t \in T : \/ \E k \in 1 .. Len(PathNo) : Add(t, PathNo[k]) /\ hist' = Append(hist, <<t, k>>)
                         \/ \E u \in T : u # t /\ App(t, u) /\ hist' = Append(hist, <<t, 0>>)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
\* the trackers are alike, so the first step is one of the first
FirstOnly == hist = <<>> \/ hist[1][1] = 1 \/ win[1] # win[2]
Emit == n = MaxOps => PrintT(<<"PROG", <<win[1], win[2]>>, hist>>)
===============================================================================
