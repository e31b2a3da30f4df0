------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Judging a file of records, one after another.  Faults(c) is the set of  *)
(* respects in which record c is not a behaviour of the specification; a   *)
(* record with faults is reported and the run goes on.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES l, bad
tvars == <<l, bad>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
If(name, ok) == IF ok THEN {} ELSE {name}

TraceInit == l = 1 /\ bad = 0
TraceStep(Faults(_)) ==
    /\ l <= Len(Trace)
    /\ LET F == Faults(Trace[l])
       IN /\ IF F = {} THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].id, F, 0>>)
          /\ bad' = IF F = {} THEN bad ELSE bad + 1
    /\ l' = l + 1

Reach == TLCSet(1, l - 1) /\ TLCSet(2, bad)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Trace), TLCGet(2)>>) /\ TLCGet(1) = Len(Trace) /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
===============================================================================
