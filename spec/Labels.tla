------------------------------- MODULE Labels ---------------------------------
(***************************************************************************)
(* What a summary of labels means.  A label is a non-empty sequence of     *)
(* integers (a category is a sequence of one), <<>> stands for a point     *)
(* without a label and Broken for one whose label could not be fetched.    *)
(* A summary means a sequence of those, its items, in which order does not *)
(* matter.                                                                 *)
(***************************************************************************)
EXTENDS Clouds

Broken == <<0, 0, 0, 0, 0, 0>>   \* longer than any label in use
IsLab(x) == x # <<>> /\ x # Broken
Labelled(b) == SelectSeq(b, IsLab)
Nones(b) == Len(SelectSeq(b, LAMBDA x : x = <<>>))
Errors(b) == Len(SelectSeq(b, LAMBDA x : x = Broken))
Counts(b) == Tally(Labelled(b))
M1(b) == LET v == Labelled(b) IN IF v = <<>> THEN <<>> ELSE Moment1(Len(v[1]), v)
M2(b) == LET v == Labelled(b) IN IF v = <<>> THEN <<>> ELSE Moment2(Len(v[1]), v)

\* what a label set shows of values under an optional mask (<<>> or <<mask>>)
Visible(v, mask) == [k \in 1 .. Len(v) |-> IF mask = <<>> THEN <<v[k]>> ELSE IF mask[1][k] THEN <<v[k]>> ELSE <<>>]
\* one-hot rows, in quarters, read as categories: the position (from 0) of the first entry above one half
Hot(row) == LET J == {k \in 1 .. Len(row) : row[k] > 2} IN IF J = {} THEN <<>> ELSE <<Min(J) - 1>>

\* a summary r of the real code, of the given kind, says what bag b means
ItemsOf(r) == {<<<<r.items[k][1]>>, r.items[k][2]>> : k \in 1 .. Len(r.items)}
RegOk(kind, r, b) ==
    /\ r.nones = Nones(b) /\ r.errors = Errors(b) /\ r.count = Len(b)
    /\ IF kind \in {"cat", "str"} THEN ItemsOf(r) = Counts(b) /\ Cardinality(ItemsOf(r)) = Len(r.items)
       ELSE /\ r.n = Len(Labelled(b))
            /\ LET z == Labelled(b) = <<>> /\ kind # "vec"
               IN r.m1 = (IF z THEN <<0>> ELSE M1(b)) /\ r.m2 = (IF z THEN <<0>> ELSE M2(b))
===============================================================================
