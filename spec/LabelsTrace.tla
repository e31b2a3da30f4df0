----------------------------- MODULE LabelsTrace ------------------------------
(***************************************************************************)
(* Validates label sets and summaries of the real code against Labels.     *)
(***************************************************************************)
EXTENDS TraceBase, Labels

Item(c, k) == IF "broken" \in DOMAIN c /\ c.broken[k] THEN Broken
              ELSE IF c.labs[k] = <<>> THEN <<>> ELSE c.labs[k][1]
\* registers after the first k operations, as sequences of items
Apply(c, regs, op) ==
    LET d == op.d + 1
    IN CASE op.op = "sum" -> [regs EXCEPT ![d] = [j \in 1 .. Len(op.a) |-> Item(c, op.a[j] + 1)]]
         [] op.op = "add" -> [regs EXCEPT ![d] = Append(@, Item(c, op.a[1] + 1))]
         [] op.op = "new" -> [regs EXCEPT ![d] = <<>>]
         [] op.op = "comb" -> [regs EXCEPT ![d] = @ \o regs[op.a[1] + 1]]
Regs(c, k) == FoldLeft(LAMBDA r, op : Apply(c, r, op), <<<<>>, <<>>, <<>>>>, SubSeq(c.ops, 1, k))
Seen(c) == c.seen = c.labs /\ c.len = Len(c.labs) /\ c.empty = (c.labs = <<>>)
Faults(c) ==
    IF ~c.ok THEN {"works"} ELSE
    CASE c.kind \in {"cat", "vec", "float", "int", "str"} ->
            If("labels", Seen(c))
            \cup If("summary", \A k \in 1 .. Len(c.ops) : LET R == Regs(c, k) IN \A r \in 1 .. 3 : RegOk(c.kind, c.ops[k].now[r], R[r]))
      [] c.kind = "merge" ->
            LET All(k) == FlattenSeq(SubSeq(c.sets, 1, k))
            IN If("merge", /\ Len(c.after) = Len(c.sets)
                           /\ \A k \in 1 .. Len(c.after) :
                                /\ c.after[k].labs = All(k) /\ c.after[k].len = Len(All(k))
                                /\ RegOk("cat", c.after[k].sum, All(k)))
      [] c.kind = "onehot" ->
            If("onehot", c.len = Len(c.labs) /\
                c.got = [k \in 1 .. Len(c.labs) |-> IF c.labs[k] = <<>> THEN <<>> ELSE Hot(c.labs[k][1])])
      [] c.kind = "binary" ->
            If("binary", c.len = Len(c.labs) /\ 
                c.got = [k \in 1 .. Len(c.labs) |-> IF c.labs[k] = <<>> THEN <<>> ELSE <<IF c.labs[k][1][1] > 2 THEN 1 ELSE 0>>])

Init == TraceInit
Next == TraceStep(Faults)
Spec == Init /\ [][Next]_tvars
===============================================================================
