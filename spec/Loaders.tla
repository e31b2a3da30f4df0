------------------------------- MODULE Loaders --------------------------------
(***************************************************************************)
(* What loading means.  Data files hold rows of numbers and are read in    *)
(* the order of their names; row i of the labels belongs to row i of the   *)
(* data.  A file that does not fit its description is refused.             *)
(***************************************************************************)
EXTENDS Labels

\* label of a row of a label file, by the kind of label
Label(kind, ldim, row) ==
    CASE kind = "csv" -> IF row[1] < 0 THEN <<>> ELSE <<row>>
      [] kind = "onehot" -> IF ldim = 1 THEN <<row>> ELSE LET h == Hot([k \in DOMAIN row |-> 4 * row[k]]) IN IF h = <<>> THEN <<>> ELSE <<h>>
      [] kind \in {"vec", "labeledmaps"} -> <<row>>
Rows(files) == FlattenSeq(files)
LabelsOf(kind, ldim, files) == LET R == Rows(files) IN [k \in 1 .. Len(R) |-> Label(kind, ldim, R[k])]
===============================================================================
