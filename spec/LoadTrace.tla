------------------------------ MODULE LoadTrace -------------------------------
(***************************************************************************)
(* Validates clouds loaded from files by the real code against Loaders.    *)
(***************************************************************************)
EXTENDS TraceBase, Loaders

Maps == {"labeledmaps", "maps"}
Labeled == {"csv", "onehot", "vec", "labeledmaps"}
\* a row short of cells has no label in a CSV whose rows may differ in length; here it is refused
Damaged(c) == c.damage # <<>> /\ ~(c.damage = <<"key">> /\ c.kind \in Maps)
RowsOk(c, rows) == /\ Len(rows) = Len(Rows(c.data)) + 1
                   /\ \A k \in 1 .. Len(Rows(c.data)) : rows[k].r = "ok" /\ rows[k].v = Rows(c.data)[k]
                   /\ rows[Len(rows)].r = "err"
\* a CSV that has no column of labels: refused, or without labels
NoColumn(c) == c.got.r = "refused" \/ (c.got.r = "ok" /\ RowsOk(c, c.got.v.rows) /\ \A k \in DOMAIN c.got.v.labs : c.got.v.labs[k] = <<>>)
Faults(c) ==
    If("released", c.released)
    \cup (IF c.damage = <<"column">> THEN If("column", NoColumn(c))
          ELSE IF Damaged(c) THEN If("refused", c.got.r = "refused")
          ELSE IF c.got.r # "ok" THEN {"accepted"}
          ELSE If("rows", RowsOk(c, c.got.v.rows) /\ c.got.v.len = Len(Rows(c.data)) /\ c.got.v.dim = c.dim)
               \cup If("ram", "ram" \in DOMAIN c.got.v => RowsOk(c, c.got.v.ram))
               \cup If("labels", IF c.kind \in Labeled THEN c.got.v.labs = LabelsOf(c.kind, c.ldim, c.labs) ELSE c.got.v.labs = <<>>))

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
