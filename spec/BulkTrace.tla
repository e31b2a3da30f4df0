------------------------------- MODULE BulkTrace -------------------------------
(***************************************************************************)
(* Validates bulk queries of the real code: single[j] names what the       *)
(* single operation gave for input j, bulk[j] what the bulk one did (equal *)
(* results have equal names).  Bulk!InOrder is what has to hold of them.   *)
(***************************************************************************)
EXTENDS TraceBase

Faults(c) ==
    If("length", Len(c.bulk) = c.len /\ Len(c.single) = c.len)
    \cup If("inorder", c.bulk = c.single)

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
