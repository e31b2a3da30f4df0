------------------------------- MODULE MCClouds -------------------------------
(***************************************************************************)
(* Gluing as the code does it: the address map is filled source by source, *)
(* row by row; re-indexing builds a new map pair by pair and gives up (and *)
(* keeps the old one) at the first unknown index; a name is looked up by   *)
(* asking the sources in turn and mapping the local row back.              *)
(***************************************************************************)
EXTENDS Clouds, TLC
CONSTANTS MaxSrc, MaxRows, MaxRe

VARIABLES src, m, at, view, re, todo, acc
vars == <<src, m, at, view, re, todo, acc>>

N == Len(Concat(src))
Sizes == UNION {[1 .. k -> 0 .. MaxRows] : k \in 1 .. MaxSrc}
\* row r of source i is told apart by its coordinates and its name
Sources(sz) == [i \in 1 .. Len(sz) |-> [r \in 1 .. sz[i] |-> [x |-> <<10 * i + r>>, lab |-> <<>>, name |-> 10 * i + r]]]

Init == /\ \E sz \in Sizes : src = Sources(sz)
        /\ m = <<>> /\ at = <<1, 1>> /\ re = 0 /\ todo = <<>> /\ acc = <<>>
        /\ view = [n \in 0 .. N - 1 |-> Concat(src)[n + 1]]
Built == at[1] > Len(src)
Insert == /\ ~Built
          /\ IF at[2] > Len(src[at[1]]) THEN at' = <<at[1] + 1, 1>> /\ m' = m
             ELSE at' = <<at[1], at[2] + 1>> /\ m' = (Cardinality(DOMAIN m) :> at) @@ m
          /\ UNCHANGED <<src, view, re, todo, acc>>
\* any assignment of new indexes; one of the old indexes may be unknown
Pairs == LET old == SetToSortSeq(DOMAIN m, <)
         IN {[k \in 1 .. Len(old) |-> <<IF k = b THEN 99 ELSE old[k], f[k]>>] :
               f \in {g \in [1 .. Len(old) -> 0 .. N] : \A i, j \in 1 .. Len(old) : i # j => g[i] # g[j]}, b \in 0 .. Len(old)}
Start == /\ Built /\ N > 0 /\ todo = <<>> /\ re < MaxRe
         /\ \E p \in Pairs : todo' = p
         /\ acc' = <<>> /\ re' = re + 1
         /\ UNCHANGED <<src, m, at, view>>
Step == /\ todo # <<>>
        /\ LET p == todo[1]
           IN IF p[1] \notin DOMAIN m THEN todo' = <<>> /\ acc' = <<>> /\ UNCHANGED <<m, view>>
              ELSE /\ acc' = (p[2] :> m[p[1]]) @@ acc
                   /\ todo' = Tail(todo)
                   /\ IF Len(todo) = 1
                      THEN /\ m' = acc'
                           /\ view' = [n \in DOMAIN acc' |-> Row(src, acc'[n])]
                      ELSE UNCHANGED <<m, view>>
        /\ UNCHANGED <<src, at, re>>
Next == Insert \/ Start \/ Step
Spec == Init /\ [][Next]_vars

Concatenated == Built /\ re = 0 => m = Glue(src)
Complete == Built => /\ Cardinality(DOMAIN m) = N
                     /\ {Row(src, m[n]) : n \in DOMAIN m} = Range(Concat(src))
Faithful == Built => \A n \in DOMAIN m : Row(src, m[n]) = view[n]
\* lookup of a name, source by source
Local(i, nm) == {r \in 1 .. Len(src[i]) : src[i][r].name = nm}
Lookup(nm) == LET I == {i \in 1 .. Len(src) : Local(i, nm) # {}}
              IN IF I = {} THEN {} ELSE {n \in DOMAIN m : m[n] = <<Min(I), Min(Local(Min(I), nm))>>}
NamesInvert == Built => /\ \A n \in DOMAIN m : Lookup(Row(src, m[n]).name) = {n}
                        /\ Lookup(0) = {}
\* re-indexing keeps every row and a failed one changes nothing
ReindexStep == [][todo # <<>> /\ m' # m => /\ Range(m') = Range(m)
                                           /\ Cardinality(DOMAIN m') = Cardinality(DOMAIN m)]_vars
===============================================================================
