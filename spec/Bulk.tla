--------------------------------- MODULE Bulk ---------------------------------
(***************************************************************************)
(* A bulk query: the inputs are cut into chunks, the chunks are mapped by   *)
(* the threads of a pool in any order, the results are joined in the order  *)
(* of the chunks.  An item that fails has a failure as its result.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS MaxLen, Chunk, Threads, Inputs

VARIABLES inp, st, res, out
vars == <<inp, st, res, out>>

\* what the single operation gives: inputs below 0 fail
Single(x) == IF x < 0 THEN <<"err", x>> ELSE <<"ok", x * 10>>
Mapped(s) == [j \in 1 .. Len(s) |-> Single(s[j])]

NChunks == (Len(inp) + Chunk - 1) \div Chunk
ChunkOf(k) == SubSeq(inp, (k - 1) * Chunk + 1, IF k * Chunk < Len(inp) THEN k * Chunk ELSE Len(inp))

InputsDef == {-1, 0, 1}
Init == /\ inp \in UNION {[1 .. n -> Inputs] : n \in 0 .. MaxLen}
        /\ st = [k \in 1 .. NChunks |-> "todo"]
        /\ res = [k \in 1 .. NChunks |-> <<>>]
        /\ out = [done |-> FALSE, v |-> <<>>]
Running == {k \in DOMAIN st : st[k] = "run"}
Take(k) == /\ st[k] = "todo" /\ Cardinality(Running) < Threads
           /\ st' = [st EXCEPT ![k] = "run"] /\ UNCHANGED <<inp, res, out>>
\* one item of chunk k
Item(k) == /\ st[k] = "run" /\ Len(res[k]) < Len(ChunkOf(k))
           /\ res' = [res EXCEPT ![k] = Append(@, Single(ChunkOf(k)[Len(@) + 1]))]
           /\ UNCHANGED <<inp, st, out>>
Finish(k) == /\ st[k] = "run" /\ Len(res[k]) = Len(ChunkOf(k))
             /\ st' = [st EXCEPT ![k] = "done"] /\ UNCHANGED <<inp, res, out>>
Join == /\ out.done = FALSE /\ \A k \in DOMAIN st : st[k] = "done"
        /\ out' = [done |-> TRUE, v |-> FoldLeft(LAMBDA acc, x : acc \o x, <<>>, res)]
        /\ UNCHANGED <<inp, st, res>>
Next == (\E k \in DOMAIN st : Take(k) \/ Item(k) \/ Finish(k)) \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == out.done => out.v = Mapped(inp)
Answers == <>(out.done)
===============================================================================
