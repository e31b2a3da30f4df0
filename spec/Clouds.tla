-------------------------------- MODULE Clouds --------------------------------
(***************************************************************************)
(* Point clouds as data.  A row is [x, lab, name]: integer coordinates, a  *)
(* label (<<>> when unlabeled, <<v>> otherwise) and a name.  A source is a *)
(* sequence of rows; a glued cloud is a sequence of sources and an address *)
(* map index -> <<source, row>> (sources and rows counted from 1, indexes  *)
(* from 0), which re-indexing composes with.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Concat(src) == FlattenSeq(src)
Row(src, addr) == src[addr[1]][addr[2]]

\* what the constructor makes: the sources one after another
AddrOf(src, n) == CHOOSE a \in UNION {{<<i, j>> : j \in 1 .. Len(src[i])} : i \in 1 .. Len(src)} :
                      Len(FlattenSeq(SubSeq(src, 1, a[1] - 1))) + a[2] = n + 1
Glue(src) == [n \in 0 .. Len(Concat(src)) - 1 |-> AddrOf(src, n)]

\* pairs: sequence of <<old, new>>; the last pair wins when a new index is named twice
ReindexOk(m, pairs) == \A k \in 1 .. Len(pairs) : pairs[k][1] \in DOMAIN m
Reindexed(m, pairs) ==
    [n \in {pairs[k][2] : k \in 1 .. Len(pairs)} |->
        LET K == {k \in 1 .. Len(pairs) : pairs[k][2] = n} IN m[pairs[Max(K)][1]]]
Reindex(m, pairs) == IF ReindexOk(m, pairs) THEN Reindexed(m, pairs) ELSE m

\* the indexes that carry a name
Named(src, m, nm) == {n \in DOMAIN m : Row(src, m[n]).name = nm}

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
D2(x, y) == Sum([k \in 1 .. Len(x) |-> Sq(x[k] - y[k])])
\* sums of coordinates and of their squares over a sequence of points of dimension d
Moment1(d, S) == [k \in 1 .. d |-> Sum([j \in 1 .. Len(S) |-> S[j][k]])]
Moment2(d, S) == [k \in 1 .. d |-> Sum([j \in 1 .. Len(S) |-> Sq(S[j][k])])]
\* how often each label occurs in a sequence of labels, as a set of <<label, count>>
Tally(labs) ==
    LET V == {labs[j] : j \in {k \in 1 .. Len(labs) : labs[k] # <<>>}}
    IN {<<v, Cardinality({j \in 1 .. Len(labs) : labs[j] = v})>> : v \in V}
Unlabeled(labs) == Cardinality({j \in 1 .. Len(labs) : labs[j] = <<>>})
===============================================================================
