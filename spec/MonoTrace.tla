------------------------------ MODULE MonoTrace ------------------------------
(***************************************************************************)
(* Validates histories of the real map against MonoAbs: one line per run,  *)
(* every event of it in the order it happened.                             *)
(***************************************************************************)
EXTENDS MonoAbs, Json, IOUtils

VARIABLES l, j, bad
vars == <<avars, l, j, bad>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
C == Trace[l]
E == C.ev[j]

Res(t, x) == IF t = "snap" THEN {x[i] : i \in 1 .. Len(x)} ELSE x

Step(e) ==
    CASE e.e = "op"  -> Op(e.t, e.k, e.v)
      [] e.e = "rfb" -> RefreshBegin(e.f)
      [] e.e = "rfe" -> RefreshEnd
      [] e.e = "drb" -> DropBegin
      [] e.e = "dre" -> DropEnd
      [] e.e = "rb"  -> ReadBegin(e.r, e.h, e.t, e.k)
      [] e.e = "in"  -> ReadIn(e.r, e.k, e.o, e.d)
      [] e.e = "chk" -> ReadCheck(e.r, e.o, e.d)
      [] e.e = "re"  -> /\ (reads[e.r].t = "snap" => Cardinality(Res("snap", e.res)) = Len(e.res))
                        /\ ReadEnd(e.r, Res(reads[e.r].t, e.res))
      [] e.e = "rp"  -> ReadPanic(e.r)

Init == InitState(-1) /\ l = 1 /\ j = 1 /\ bad = 0

Reset == /\ vers' = <<Version("new", Empty, -1)>>
         /\ lo' = 1 /\ hi' = 1
         /\ cur' = Empty /\ meta' = -1 /\ dirty' = TRUE
         /\ mode' = "idle" /\ floor' = Empty /\ reads' = Empty
         /\ l' = l + 1 /\ j' = 1

Report(F, k) == PrintT(<<"REJECT", l, C.id, F, k>>)

\* what must be true of a run as a whole: it finished, and everything was released exactly once
EndFaults == (IF C.stuck THEN {"stuck"} ELSE {})
             \cup (IF ~C.stuck /\ (C.live # 0 \/ C.double # 0) THEN {"release"} ELSE {})
             \cup (IF ~C.stuck /\ (mode # "dropped" \/ DOMAIN reads # {}) THEN {"unfinished"} ELSE {})

Event == /\ l <= Len(Trace) /\ j <= Len(C.ev)
         /\ Step(E)
         /\ j' = j + 1 /\ UNCHANGED <<l, bad>>
\* an event the specification does not allow here
NoEvent == /\ l <= Len(Trace) /\ j <= Len(C.ev)
           /\ ~ENABLED Event
           /\ Report({E.e}, <<j, E>>)
           /\ bad' = bad + 1 /\ Reset
Done == /\ l <= Len(Trace) /\ j > Len(C.ev)
        /\ IF EndFaults = {} THEN bad' = bad ELSE Report(EndFaults, j) /\ bad' = bad + 1
        /\ Reset
Next == Event \/ NoEvent \/ Done
Spec == Init /\ [][Next]_vars

Reach == TLCSet(1, l - 1) /\ TLCSet(2, bad)
Accepted == PrintT(<<"REACHED", TLCGet(1), Len(Trace), TLCGet(2)>>) /\ TLCGet(1) = Len(Trace) /\ TLCGet(2) = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
===============================================================================
