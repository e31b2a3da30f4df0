------------------------------- MODULE Monomap -------------------------------
(***************************************************************************)
(* The algorithm of the two-copy map: one writer, readers that announce    *)
(* themselves through epochs, two copies that change places at a refresh.  *)
(* One action per shared-memory access of the code.                        *)
(*                                                                         *)
(* Checked: nothing is written to, or freed, while a reader is inside it;  *)
(* every copy a reader looks into is exactly a published version inside    *)
(* the window MonoAbs allows; both copies end up with every operation      *)
(* exactly once and in order; a refresh completes once readers leave.      *)
(*                                                                         *)
(* Bugs re-introduces known mistakes, to show that they would be found.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Readers, MaxOps, MaxRefresh, MaxReads, Nesting, Late, Bugs

Copies == {"A", "B"}
Other(c) == IF c = "A" THEN "B" ELSE "A"

VARIABLES
    ptr,        \* "A", "B" or "null": where readers are sent
    copy,       \* copy -> sequence of operations applied
    ready,      \* copy -> has been published at least once
    freed,      \* copy -> released
    nops,       \* operations made so far (operation i is the i-th)
    oplog, swapIx, first, second,
    wpc,        \* program counter of the writer
    wi,         \* loop index of the writer
    last,       \* reader -> epoch recorded after the last swap
    refreshes, dropping,
    pub,        \* operations in each published version, oldest first (history)
    shown,      \* number of published versions whose refresh has completed (history)
    reg,        \* registered readers
    epoch,      \* reader -> <<number, closed>>: what the writer can see
    stack,      \* reader -> reads in progress, outermost first: [pc, c, lo]
    reads       \* reader -> reads begun

vars == <<ptr, copy, ready, freed, nops, oplog, swapIx, first, second, wpc, wi, last,
          refreshes, dropping, pub, shown, reg, epoch, stack, reads>>
wvars == <<nops, oplog, swapIx, first, second, wpc, wi, last, refreshes, dropping, pub, shown>>
rvars == <<reg, epoch, stack, reads>>

Order == CHOOSE f \in [1 .. Cardinality(Readers) -> Readers] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]
NR == Cardinality(Readers)

Init ==
    /\ ptr = "A" /\ copy = [c \in Copies |-> <<>>] /\ ready = [c \in Copies |-> c = "B"]
    /\ freed = [c \in Copies |-> FALSE]
    /\ nops = 0 /\ oplog = <<>> /\ swapIx = 0 /\ first = TRUE /\ second = FALSE
    /\ wpc = "idle" /\ wi = 1 /\ last = [r \in Readers |-> <<0, FALSE>>]
    /\ refreshes = 0 /\ dropping = FALSE
    /\ pub = <<>> /\ shown = 0
    /\ reg = Readers \ Late
    /\ epoch = [r \in Readers |-> <<0, FALSE>>]
    /\ stack = [r \in Readers |-> <<>>]
    /\ reads = [r \in Readers |-> 0]

W == Other(ptr)     \* the writer's copy (while ptr is not null)

-------------------------------------------------------------------------------
AddOp ==
    /\ wpc = "idle" /\ ~dropping /\ nops < MaxOps
    /\ nops' = nops + 1
    /\ IF first THEN copy' = [copy EXCEPT ![W] = Append(@, nops + 1)] /\ UNCHANGED oplog
       ELSE oplog' = Append(oplog, nops + 1) /\ UNCHANGED copy
    /\ UNCHANGED <<ptr, ready, freed, swapIx, first, second, wpc, wi, last, refreshes, dropping, pub, shown, rvars>>

RefreshLock ==
    /\ wpc = "idle" /\ ~dropping /\ refreshes < MaxRefresh
    /\ wpc' = "wait" /\ wi' = 1
    /\ refreshes' = refreshes + 1
    /\ UNCHANGED <<ptr, copy, ready, freed, nops, oplog, swapIx, first, second, last, dropping, pub, shown, rvars>>

DropStart ==
    /\ wpc = "idle" /\ ~dropping
    /\ dropping' = TRUE
    /\ UNCHANGED <<ptr, copy, ready, freed, nops, oplog, swapIx, first, second, wpc, wi, last, refreshes, pub, shown, rvars>>
DropRefresh ==
    /\ wpc = "idle" /\ dropping /\ oplog # <<>>
    /\ wpc' = "wait" /\ wi' = 1
    /\ UNCHANGED <<ptr, copy, ready, freed, nops, oplog, swapIx, first, second, last, refreshes, dropping, pub, shown, rvars>>

\* the readers registered so far are looked at one after another; r may be passed when it was outside
\* at the last swap, or has moved since, or is outside now
Passable(r) ==
    \/ last[r][2]
    \/ epoch[r] # last[r]
    \/ epoch[r][2]
    \/ epoch[r][1] = 0
    \/ "nowait" \in Bugs
WaitStep(done) ==
    /\ IF wi > NR THEN wpc' = done /\ wi' = 1
       ELSE /\ Order[wi] \notin reg \/ Passable(Order[wi])
            /\ wi' = wi + 1 /\ UNCHANGED wpc
    /\ UNCHANGED <<ptr, copy, ready, freed, nops, oplog, swapIx, first, second, last, refreshes, dropping, pub, shown, rvars>>

Apply ==
    /\ wpc = "apply"
    /\ LET base == IF second THEN copy[ptr] ELSE copy[W]
           old  == IF swapIx # 0 THEN SubSeq(oplog, 1, swapIx) ELSE <<>>
           rest == SubSeq(oplog, swapIx + 1, Len(oplog))
       IN /\ copy' = [copy EXCEPT ![W] = base \o old \o rest]
          /\ oplog' = rest /\ swapIx' = Len(rest)
    /\ ready' = [ready EXCEPT ![W] = TRUE]
    /\ wpc' = "swap"
    /\ UNCHANGED <<ptr, freed, nops, first, second, wi, last, refreshes, dropping, pub, shown, rvars>>

Swap ==
    /\ wpc = "swap"
    /\ ptr' = W
    /\ pub' = Append(pub, nops)
    /\ wpc' = "record" /\ wi' = 1
    /\ UNCHANGED <<copy, ready, freed, nops, oplog, swapIx, first, second, last, refreshes, dropping, shown, rvars>>

RecordStep(next) ==
    IF wi > NR
    THEN /\ wpc' = next /\ wi' = 1
         /\ IF next = "idle" THEN second' = first /\ first' = FALSE /\ shown' = Len(pub)
            ELSE UNCHANGED <<second, first, shown>>
         /\ UNCHANGED <<ptr, copy, ready, freed, nops, oplog, swapIx, last, refreshes, dropping, pub, rvars>>
    ELSE /\ last' = IF Order[wi] \in reg THEN [last EXCEPT ![Order[wi]] = epoch[Order[wi]]] ELSE last
         /\ wi' = wi + 1
         /\ UNCHANGED <<ptr, copy, ready, freed, nops, oplog, swapIx, first, second, wpc, refreshes, dropping, pub, shown, rvars>>

\* the writer goes away: first the pointer, then wait for everybody, then release
DropSwap ==
    /\ wpc = "idle" /\ dropping /\ oplog = <<>> /\ ptr # "null"
    /\ ptr' = "null"
    /\ wpc' = IF "stale" \in Bugs THEN "dropwait" ELSE "droprecord"
    /\ wi' = 1
    /\ UNCHANGED <<copy, ready, freed, nops, oplog, swapIx, first, second, last, refreshes, dropping, pub, shown, rvars>>
Free ==
    /\ wpc = "free"
    /\ freed' = [c \in Copies |-> TRUE]
    /\ wpc' = "gone"
    /\ UNCHANGED <<ptr, copy, ready, nops, oplog, swapIx, first, second, wi, last, refreshes, dropping, pub, shown, rvars>>

Locked == wpc \notin {"idle", "gone"}

Writer == AddOp \/ RefreshLock \/ DropStart \/ DropRefresh
          \/ (wpc = "wait" /\ WaitStep("apply")) \/ Apply \/ Swap
          \/ (wpc = "record" /\ RecordStep("idle"))
          \/ DropSwap \/ (wpc = "droprecord" /\ RecordStep("dropwait"))
          \/ (wpc = "dropwait" /\ WaitStep("free")) \/ Free

-------------------------------------------------------------------------------
Register(r) ==
    /\ r \notin reg /\ ~Locked
    /\ reg' = reg \cup {r}
    /\ UNCHANGED <<ptr, copy, ready, freed, wvars, epoch, stack, reads>>

Push(r, e) == stack' = [stack EXCEPT ![r] = Append(@, e)]
Top(r) == stack[r][Len(stack[r])]
SetTop(r, e) == stack' = [stack EXCEPT ![r] = [@ EXCEPT ![Len(stack[r])] = e]]

\* announce, then load the pointer, then be inside, then leave
Announce(r) ==
    /\ r \in reg /\ reads[r] < MaxReads
    /\ \/ stack[r] = <<>>
       \/ Nesting /\ Len(stack[r]) = 1 /\ Top(r).pc = "in"
    /\ Push(r, [pc |-> "load", c |-> "null", lo |-> shown])
    /\ epoch' = IF stack[r] = <<>> \/ "nested" \in Bugs THEN [epoch EXCEPT ![r] = <<@[1] + 1, FALSE>>] ELSE epoch
    /\ reads' = [reads EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<ptr, copy, ready, freed, wvars, reg>>
Load(r) ==
    /\ stack[r] # <<>> /\ Top(r).pc = "load"
    /\ SetTop(r, [Top(r) EXCEPT !.pc = "in", !.c = ptr])
    /\ UNCHANGED <<ptr, copy, ready, freed, wvars, reg, epoch, reads>>
Leave(r) ==
    /\ stack[r] # <<>> /\ Top(r).pc = "in"
    /\ stack' = [stack EXCEPT ![r] = SubSeq(@, 1, Len(@) - 1)]
    /\ epoch' = IF Len(stack[r]) = 1 \/ "nested" \in Bugs THEN [epoch EXCEPT ![r] = <<@[1], TRUE>>] ELSE epoch
    /\ UNCHANGED <<ptr, copy, ready, freed, wvars, reg, reads>>

Reader(r) == Register(r) \/ Announce(r) \/ Load(r) \/ Leave(r)

Next == Writer \/ \E r \in Readers : Reader(r)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Writer) /\ \A r \in Readers : WF_vars(Load(r) \/ Leave(r))

-------------------------------------------------------------------------------
Inside(c) == {r \in Readers : \E i \in 1 .. Len(stack[r]) : stack[r][i].pc = "in" /\ stack[r][i].c = c}

\* the copy the writer is about to write has no reader in it
NoWriteUnderReader == /\ wpc = "apply" => Inside(W) = {}
                      /\ first /\ wpc = "idle" /\ ptr # "null" => Inside(W) = {}
NoFreeUnderReader == \A c \in Copies : freed[c] => Inside(c) = {}
\* what is inside the copy readers are sent to, as a published version
UpTo(k) == [i \in 1 .. k |-> i]
PublishedInOrder == ptr # "null" /\ pub # <<>> => copy[ptr] = UpTo(pub[Len(pub)])
BeforeFirst == ptr # "null" /\ pub = <<>> => copy[ptr] = <<>> /\ ~ready[ptr]
\* a read in progress looks at exactly one version of its window
InWindow == \A r \in Readers : \A i \in 1 .. Len(stack[r]) :
    LET e == stack[r][i]
    IN e.pc = "in" /\ e.c # "null" /\ ~freed[e.c] =>
          \/ e.lo = 0 /\ copy[e.c] = <<>>
          \/ \E v \in (IF e.lo = 0 THEN 1 ELSE e.lo) .. Len(pub) : copy[e.c] = UpTo(pub[v])
\* once everything is replayed the two copies agree
Converged == wpc = "idle" /\ ~first /\ ~second /\ oplog = <<>> /\ ptr # "null" => copy["A"] = copy["B"]
AtMostTwoRefreshesOnDrop == dropping /\ wpc = "gone" => oplog = <<>>

\* a refresh, or the end of the writer, completes
Completes == [](wpc # "idle" /\ wpc # "gone" => <>(wpc = "idle" \/ wpc = "gone"))
===============================================================================
