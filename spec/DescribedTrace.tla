--------------------------- MODULE DescribedTrace -----------------------------
(***************************************************************************)
(* Judges trees made from a YAML description: over the rows of the files   *)
(* it names, in the order of the files, with their labels, built with its  *)
(* parameters, so the same tree as one built by hand from the same rows,   *)
(* parameters and seed.  A description that says how many points there are *)
(* is refused if there are not that many.                                  *)
(***************************************************************************)
EXTENDS TraceBase, SequencesExt

Rows(c) == FlattenSeq(c.files)
Refused(c) == c.counted # <<>> /\ c.counted[1] # Len(Rows(c))
Faults(c) ==
    IF ~c.ok THEN {"works"}
    ELSE IF Refused(c) THEN If("refused", c.got = <<>>)
    ELSE IF c.got = <<>> THEN {"built"}
    ELSE LET g == c.got[1]
         IN If("rows", g.rows = Rows(c))
            \cup If("labels", g.labels = IF c.labeled THEN FlattenSeq(c.labels) ELSE <<>>)
            \cup If("parameters", g.tree.params = c.want)
            \cup If("tree", g.tree = c.twin)

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
