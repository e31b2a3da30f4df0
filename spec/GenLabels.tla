------------------------------- MODULE GenLabels -------------------------------
(***************************************************************************)
(* Enumerates short programs on summaries and chains of merged label sets, *)
(* for replay on the real code.  A program on summaries works on two of    *)
(* them and on four labels (two values, one masked, one that fails to be   *)
(* read): a step is <<operation, summary, argument>>.  A link of a chain   *)
(* is <<values, masked or not, mask>>.                                     *)
(***************************************************************************)
EXTENDS Labels, TLC
CONSTANTS MaxOps, MaxLen, MaxSets
VARIABLES kind, hist, bag
vars == <<kind, hist, bag>>

Regs == 0 .. 1
\* the label an index stands for
Lab(i) == <<<<1>>, <<2>>, <<>>, Broken>>[i + 1]
Everything == [i \in 1 .. 4 |-> Lab(i - 1)]
Bits(n) == [1 .. n -> {0, 1}]
Links == UNION {{<<v, 0, [k \in 1 .. n |-> 0]>> : v \in Bits(n)} \cup {<<v, 1, m>> : v \in Bits(n), m \in Bits(n)} : n \in 0 .. MaxLen}
Shown(x) == [k \in 1 .. Len(x[1]) |-> IF x[2] = 1 /\ x[3][k] = 0 THEN <<>> ELSE <<x[1][k]>>]

GInit == kind \in {"ops", "merge"} /\ hist = <<>> /\ bag = [r \in Regs |-> <<>>]
Step(s) == hist' = Append(hist, s) /\ UNCHANGED kind
Ops == /\ kind = "ops" /\ Len(hist) < MaxOps
       /\ \E d \in IF hist = <<>> THEN {0} ELSE Regs :
            \/ \E i \in 0 .. 3 : Step(<<"add", d, i>>) /\ bag' = [bag EXCEPT ![d] = Append(@, Lab(i))]
            \/ \E s \in Regs : Step(<<"comb", d, s>>) /\ bag' = [bag EXCEPT ![d] = @ \o bag[s]]
            \/ Step(<<"sum", d, 0>>) /\ bag' = [bag EXCEPT ![d] = Everything]
            \/ Step(<<"new", d, 0>>) /\ bag' = [bag EXCEPT ![d] = <<>>]
Merge == /\ kind = "merge" /\ Len(hist) < MaxSets
         /\ \E x \in Links : /\ (Len(hist) >= 2 => Len(x[1]) < MaxLen)
                             /\ Step(x) /\ bag' = [bag EXCEPT ![0] = @ \o Shown(x)]
GSpec == GInit /\ [][Ops \/ Merge]_vars
\* combining never loses or invents a label
Conserved == kind = "merge" => Len(bag[0]) = FoldLeft(LAMBDA n, x : n + Len(x[1]), 0, hist)
Emit == Len(hist) = (IF kind = "ops" THEN MaxOps ELSE MaxSets) => PrintT(<<"PROG", kind, hist>>)
===============================================================================
