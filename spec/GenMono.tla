-------------------------------- MODULE GenMono --------------------------------
(***************************************************************************)
(* Enumerates the sequences of MaxOps operations of a writer of MonoAbs,   *)
(* for replay on the real map: a step is <<operation, key, value>>, the    *)
(* value being the number of the step.  A refresh begins and completes in  *)
(* one step.                                                               *)
(***************************************************************************)
EXTENDS MonoAbs
CONSTANTS Keys, MaxOps
VARIABLE hist
Step == Len(hist) + 1
Done(v) == hist' = Append(hist, v)
\* a begun refresh is completed before anything else
Complete == mode \in {"refresh", "flush"} /\ RefreshEnd /\ UNCHANGED hist
GInit == InitState(-1) /\ hist = <<>>
GNext == \/ Complete
         \/ /\ mode = "idle" /\ Len(hist) < MaxOps
            /\ \/ \E t \in {"ins", "upd", "rem"}, k \in Keys : Op(t, k, Step) /\ Done(<<t, k, Step>>)
               \/ \E t \in {"pur", "meta"} : Op(t, 0, Step) /\ Done(<<t, 0, Step>>)
               \/ \E f \in BOOLEAN : RefreshBegin(f) /\ Done(<<IF f THEN "flush" ELSE "refresh", 0, 0>>)
GSpec == GInit /\ [][GNext]_<<avars, hist>>
\* the keys are alike: the first operation on one of them is on the smallest
First == \A j \in 1 .. Len(hist) : hist[j][2] > 0 => \A k \in Keys : k < hist[j][2] => \E i \in 1 .. j - 1 : hist[i][2] = k
Shown == lo = hi => vers[hi].st = "new" \/ dirty \/ vers[hi].m = cur
Emit == Len(hist) = MaxOps => PrintT(<<"PROG", hist>>)
===============================================================================
