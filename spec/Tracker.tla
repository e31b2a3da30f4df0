------------------------------- MODULE Tracker --------------------------------
(***************************************************************************)
(* What a tracker means: the sequence of the paths in its window.  A path  *)
(* is a sequence of addresses.  A window of 0 is unlimited.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Window(w, s) == IF w = 0 \/ Len(s) <= w THEN s ELSE SubSeq(s, Len(s) - w + 1, Len(s))
Added(w, s, path) == Window(w, Append(s, path))
Appended(w, s, t) == Window(w, s \o t)

\* how often the paths of s go from a to b, and end in a
Steps(s, a, b) == FoldLeft(LAMBDA x, p : x + Cardinality({k \in 1 .. Len(p) - 1 : p[k] = a /\ p[k + 1] = b}), 0, s)
Stops(s, a) == Cardinality({j \in 1 .. Len(s) : s[j][Len(s[j])] = a})
Touched(s) == UNION {ToSet(s[j]) : j \in 1 .. Len(s)}
Next1(s, a) == UNION {{s[j][k + 1] : k \in {k \in 1 .. Len(s[j]) - 1 : s[j][k] = a}} : j \in 1 .. Len(s)}
\* the evidence at a: children with their counts (those above zero), and the stops
Evidence(s, a) == [kids |-> {<<b, Steps(s, a, b)>> : b \in Next1(s, a)}, stop |-> Stops(s, a)]
===============================================================================
