------------------------------- MODULE MonoAbs -------------------------------
(***************************************************************************)
(* What the two-copy map promises its clients, without saying how.         *)
(*                                                                         *)
(* The writer queues operations; a refresh makes the result of all of them *)
(* a new published version.  A read sees exactly one version v with        *)
(*        lo <= v <= hi                                                    *)
(* where lo is the newest version whose refresh had completed when the     *)
(* read began (and at least what the same handle saw before) and hi the    *)
(* newest version whose refresh had begun when the read looked.  While it  *)
(* is inside, what it looks at does not change and is not released.        *)
(*                                                                         *)
(* A version is [st, m, meta]: st is "new" (nothing published yet: empty,  *)
(* lookups say nothing), "live", or "gone" (the writer was dropped).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    vers,    \* all versions so far, oldest first; the last ones may not have been shown yet
    lo,      \* index of the newest version certainly visible
    hi,      \* index of the newest version possibly visible
    cur,     \* the map with every queued operation applied: key -> sequence
    meta,    \* the meta data as set last
    dirty,   \* operations queued since the last refresh (or nothing was ever refreshed)
    mode,    \* "idle", "refresh", "flush", "drop", "dropped"
    floor,   \* handle -> newest version the handle certainly saw
    reads    \* active reads: id -> [h, t, k, lo, F, o]

avars == <<vers, lo, hi, cur, meta, dirty, mode, floor, reads>>

Empty == <<>>          \* the function with the empty domain
Version(st, m, mt) == [st |-> st, m |-> m, meta |-> mt]

InitState(m0) ==
    /\ vers = <<Version("new", Empty, m0)>>
    /\ lo = 1 /\ hi = 1
    /\ cur = Empty /\ meta = m0 /\ dirty = TRUE
    /\ mode = "idle" /\ floor = Empty /\ reads = Empty

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

ApplyOp(m, t, k, v) ==
    CASE t = "ins" -> (k :> <<v>>) @@ m
      [] t = "upd" -> IF k \in DOMAIN m THEN [m EXCEPT ![k] = Append(@, v)] ELSE m
      [] t = "rem" -> Without(m, k)
      [] t = "pur" -> Empty
      [] OTHER     -> m

Op(t, k, v) ==
    /\ mode = "idle"
    /\ IF t = "meta" THEN meta' = v /\ UNCHANGED <<cur, dirty>>
       ELSE cur' = ApplyOp(cur, t, k, v) /\ dirty' = TRUE /\ UNCHANGED meta
    /\ UNCHANGED <<vers, lo, hi, mode, floor, reads>>

RefreshBegin(flush) ==
    /\ mode = "idle"
    /\ mode' = IF flush THEN "flush" ELSE "refresh"
    /\ vers' = Append(vers, Version("live", cur, meta))
    /\ hi' = hi + 1
    /\ UNCHANGED <<lo, cur, meta, dirty, floor, reads>>

\* a flush with nothing queued need not publish
RefreshEnd ==
    /\ mode \in {"refresh", "flush"}
    /\ lo' = IF mode = "refresh" \/ dirty THEN hi ELSE lo
    /\ dirty' = FALSE
    /\ mode' = "idle"
    /\ UNCHANGED <<vers, hi, cur, meta, floor, reads>>

\* dropping the writer publishes what is left, then takes everything away
DropBegin ==
    /\ mode = "idle"
    /\ mode' = "drop"
    /\ vers' = vers \o <<Version("live", cur, meta), Version("gone", Empty, meta)>>
    /\ hi' = hi + 2
    /\ UNCHANGED <<lo, cur, meta, dirty, floor, reads>>
DropEnd ==
    /\ mode = "drop"
    /\ mode' = "dropped"
    /\ lo' = hi
    /\ UNCHANGED <<vers, hi, cur, meta, dirty, floor, reads>>

(***************************************************************************)
(* What a read of kind t for key k gives in version v.  "None" is <<>>,    *)
(* "Some x" is <<x>>.                                                      *)
(***************************************************************************)
Look(v, k) == IF v.st = "live" /\ k \in DOMAIN v.m THEN <<v.m[k]>> ELSE <<>>
Result(v, t, k) ==
    CASE t = "get"      -> Look(v, k)
      [] t = "metaget"  -> IF v.st = "live" THEN <<Look(v, k), v.meta>> ELSE <<>>
      [] t = "len"      -> Cardinality(DOMAIN v.m)
      [] t = "empty"    -> DOMAIN v.m = {}
      [] t = "contains" -> k \in DOMAIN v.m
      [] t = "snap"     -> {<<x, v.m[x]>> : x \in DOMAIN v.m}
      [] t = "meta"     -> IF v.st = "gone" THEN <<>> ELSE <<v.meta>>
      [] t = "gone"     -> v.st = "gone"

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOfSet(S) == CHOOSE x \in S : \A y \in S : x <= y
FloorOf(h) == IF h \in DOMAIN floor THEN floor[h] ELSE 1

ReadBegin(r, h, t, k) ==
    /\ r \notin DOMAIN reads
    /\ reads' = (r :> [h |-> h, t |-> t, k |-> k, lo |-> MaxOf(lo, FloorOf(h)), F |-> {}, o |-> <<>>]) @@ reads
    /\ UNCHANGED <<vers, lo, hi, cur, meta, dirty, mode, floor>>

\* the versions in which the read may be, given that it saw o
Fits(r, o) == LET q == reads[r]
              IN {v \in q.lo .. hi : vers[v].st = "live" /\ q.k \in DOMAIN vers[v].m /\ vers[v].m[q.k] = o}

\* the read has a value in its hands
ReadIn(r, k, o, dead) ==
    /\ r \in DOMAIN reads /\ reads[r].k = k /\ ~dead
    /\ LET F == Fits(r, o)
       IN /\ F # {}
          /\ reads' = [reads EXCEPT ![r].F = F, ![r].o = o]
          /\ floor' = (reads[r].h :> MinOfSet(F)) @@ floor
    /\ UNCHANGED <<vers, lo, hi, cur, meta, dirty, mode>>

\* it looks again: the same, and still there
ReadCheck(r, o, dead) ==
    /\ r \in DOMAIN reads /\ ~dead /\ o = reads[r].o
    /\ UNCHANGED avars

ReadEnd(r, res) ==
    /\ r \in DOMAIN reads
    /\ LET q == reads[r]
           F == {v \in q.lo .. hi : Result(vers[v], q.t, q.k) = res}
           G == IF q.F = {} THEN F ELSE F \cap q.F
       IN /\ G # {}
          /\ floor' = (q.h :> MaxOf(FloorOf(q.h), MinOfSet(G))) @@ floor
    /\ reads' = [x \in DOMAIN reads \ {r} |-> reads[x]]
    /\ UNCHANGED <<vers, lo, hi, cur, meta, dirty, mode>>

\* a read that ends in a panic of its closure is over like any other
ReadPanic(r) ==
    /\ r \in DOMAIN reads /\ reads[r].F # {}
    /\ reads' = [x \in DOMAIN reads \ {r} |-> reads[x]]
    /\ UNCHANGED <<vers, lo, hi, cur, meta, dirty, mode, floor>>
===============================================================================
