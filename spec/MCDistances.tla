---------------------------- MODULE MCDistances -------------------------------
(***************************************************************************)
(* A batch of distances as the code makes it: up to three chunks are done  *)
(* in sequence and stop at the first failure; longer lists are cut into    *)
(* chunks that workers fill side by side, writing into their own part of   *)
(* the output and, on failure, into one shared error cell.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Points, MaxLen, Chunks, Workers

VARIABLES list, chunk, out, error, todo, busy, done
vars == <<list, chunk, out, error, todo, busy, done>>

Bad == 0                        \* an index the cloud cannot deliver
D(i) == 10 + i                  \* the distance of point i
NChunks == (Len(list) + chunk - 1) \div chunk
Part(c) == ((c - 1) * chunk + 1) .. (IF c * chunk < Len(list) THEN c * chunk ELSE Len(list))
Parallel == Len(list) > 3 * chunk

Init == /\ list \in UNION {[1 .. n -> {Bad} \cup Points] : n \in 0 .. MaxLen}
        /\ chunk \in Chunks
        /\ out = <<>> /\ error = FALSE /\ done = FALSE
        /\ todo = IF Parallel THEN 1 .. NChunks ELSE {}
        /\ busy = [w \in 1 .. Workers |-> <<>>]      \* <<>> or <<chunk, next position>>
\* one after the other
Seq1 == /\ ~Parallel /\ ~done /\ Len(out) < Len(list)
        /\ LET i == list[Len(out) + 1]
           IN IF i = Bad THEN error' = TRUE /\ done' = TRUE /\ out' = out
              ELSE out' = Append(out, D(i)) /\ UNCHANGED <<error, done>>
        /\ UNCHANGED <<list, chunk, todo, busy>>
\* side by side
Take(w) == /\ Parallel /\ busy[w] = <<>> /\ todo # {}
           /\ \E c \in todo : todo' = todo \ {c} /\ busy' = [busy EXCEPT ![w] = <<c, Min(Part(c))>>]
           /\ UNCHANGED <<list, chunk, out, error, done>>
One(w) == /\ busy[w] # <<>>
          /\ LET k == busy[w][2]
             IN /\ IF list[k] = Bad THEN error' = TRUE /\ out' = out
                   ELSE out' = (k :> D(list[k])) @@ out /\ error' = error
                /\ busy' = [busy EXCEPT ![w] = IF k = Max(Part(busy[w][1])) THEN <<>> ELSE <<@[1], k + 1>>]
          /\ UNCHANGED <<list, chunk, todo, done>>
Finish == /\ ~done /\ todo = {} /\ \A w \in 1 .. Workers : busy[w] = <<>>
          /\ IF Parallel THEN TRUE ELSE Len(out) = Len(list)
          /\ done' = TRUE /\ UNCHANGED <<list, chunk, out, error, todo, busy>>
Next == Seq1 \/ Finish \/ \E w \in 1 .. Workers : Take(w) \/ One(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the parts cover the list and do not overlap
Cut == Parallel => /\ UNION {Part(c) : c \in 1 .. NChunks} = 1 .. Len(list)
                   /\ \A c, d \in 1 .. NChunks : c # d => Part(c) \cap Part(d) = {}
Right == done => IF \E k \in 1 .. Len(list) : list[k] = Bad THEN error
                 ELSE ~error /\ DOMAIN out = 1 .. Len(list) /\ \A k \in DOMAIN out : out[k] = D(list[k])
Ends == <>done
===============================================================================
