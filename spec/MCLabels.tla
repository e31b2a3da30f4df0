------------------------------ MODULE MCLabels --------------------------------
(***************************************************************************)
(* The summaries as the code keeps them.  Categories: a list of <<value,   *)
(* count>> searched from the front.  Vectors: two moments that are empty   *)
(* until the first label.  Label sets under an optional mask that merging  *)
(* extends.  Each is run beside the sequence of labels it stands for.      *)
(***************************************************************************)
EXTENDS Labels, TLC
CONSTANTS Values, MaxOps, MaxMerge, Regs, MaxLen

VARIABLES cat, vec, bag, set, shown, ops
vars == <<cat, vec, bag, set, shown, ops>>

Labs == {<<v>> : v \in Values} \cup {<<>>, Broken}
Empty == [items |-> <<>>, nones |-> 0, errors |-> 0]
EmptyV == [m1 |-> <<>>, m2 |-> <<>>, n |-> 0]

Hit(items, v) == {k \in 1 .. Len(items) : items[k][1] = v}
Bump(items, v, c) == IF Hit(items, v) = {} THEN Append(items, <<v, c>>)
                     ELSE [items EXCEPT ![Min(Hit(items, v))][2] = @ + c]
AddCat(s, x) == IF x = <<>> THEN [s EXCEPT !.nones = @ + 1]
                ELSE IF x = Broken THEN [s EXCEPT !.errors = @ + 1]
                ELSE [s EXCEPT !.items = Bump(@, x, 1)]
CombCat(s, o) == [items |-> FoldLeft(LAMBDA it, e : Bump(it, e[1], e[2]), s.items, o.items),
                  nones |-> s.nones + o.nones, errors |-> s.errors + o.errors]
Plus(a, b) == [k \in 1 .. Len(a) |-> a[k] + b[k]]
Squares(x) == [k \in 1 .. Len(x) |-> Sq(x[k])]
Zero(x) == [k \in 1 .. Len(x) |-> 0]
AddVec(s, x) == IF ~IsLab(x) THEN s
                ELSE IF s.m1 = <<>> THEN [m1 |-> x, m2 |-> Squares(x), n |-> s.n + 1]
                ELSE [m1 |-> Plus(s.m1, x), m2 |-> Plus(s.m2, Squares(x)), n |-> s.n + 1]
\* code: moments are resized to the other's, then zipped (zip stops at the shorter)
Zipped(a, b) == [k \in 1 .. Len(a) |-> IF k <= Len(b) THEN a[k] + b[k] ELSE a[k]]
CombVec(s, o) == LET a == IF s.m1 = <<>> THEN [s EXCEPT !.m1 = Zero(o.m1), !.m2 = Zero(o.m2)] ELSE s
                 IN [m1 |-> Zipped(a.m1, o.m1), m2 |-> Zipped(a.m2, o.m2), n |-> a.n + o.n]

\* label sets [v, mask]
Trues(n) == [k \in 1 .. n |-> TRUE]
Merge(s, o) == [v |-> s.v \o o.v,
                mask |-> IF s.mask = <<>> /\ o.mask = <<>> THEN <<>>
                         ELSE <<(IF s.mask = <<>> THEN Trues(Len(s.v)) ELSE s.mask[1]) \o
                                (IF o.mask = <<>> THEN Trues(Len(o.v)) ELSE o.mask[1])>>]
Sets == UNION {{[v |-> v, mask |-> k] : v \in [1 .. n -> Values], k \in {<<>>} \cup {<<b>> : b \in [1 .. n -> BOOLEAN]}} : n \in 0 .. MaxLen}

Init == /\ cat = [r \in 1 .. Regs |-> Empty] /\ vec = [r \in 1 .. Regs |-> EmptyV]
        /\ bag = [r \in 1 .. Regs |-> <<>>] /\ ops = 0
        /\ set = [v |-> <<>>, mask |-> <<>>] /\ shown = <<>>
Add == \E r \in 1 .. Regs, x \in Labs :
          /\ cat' = [cat EXCEPT ![r] = AddCat(@, x)]
          /\ vec' = [vec EXCEPT ![r] = AddVec(@, x)]
          /\ bag' = [bag EXCEPT ![r] = Append(@, x)]
          /\ UNCHANGED <<set, shown>>
Combine == \E r, s \in 1 .. Regs :
          /\ cat' = [cat EXCEPT ![r] = CombCat(@, cat[s])]
          /\ vec' = [vec EXCEPT ![r] = CombVec(@, vec[s])]
          /\ bag' = [bag EXCEPT ![r] = @ \o bag[s]]
          /\ UNCHANGED <<set, shown>>
MergeSet == /\ ops < MaxMerge /\ bag = [r \in 1 .. Regs |-> <<>>]
            /\ \E s \in Sets : set' = Merge(set, s) /\ shown' = shown \o Visible(s.v, s.mask)
            /\ UNCHANGED <<cat, vec, bag>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Add \/ Combine \/ MergeSet)
Spec == Init /\ [][Next]_vars

CatOk == \A r \in 1 .. Regs : /\ Range(cat[r].items) = Counts(bag[r])
                              /\ Cardinality(Range(cat[r].items)) = Len(cat[r].items)
                              /\ cat[r].nones = Nones(bag[r]) /\ cat[r].errors = Errors(bag[r])
VecOk == \A r \in 1 .. Regs : vec[r] = [m1 |-> M1(bag[r]), m2 |-> M2(bag[r]), n |-> Len(Labelled(bag[r]))]
MergeOk == Visible(set.v, set.mask) = shown
===============================================================================
