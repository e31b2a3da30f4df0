------------------------------ MODULE MCLoaders -------------------------------
(***************************************************************************)
(* Loading as the code does it: map every file, checking that its bytes    *)
(* are whole points, copy the cells of each map one after another into one *)
(* flat array, and cut rows out of it by arithmetic.  Maps are released    *)
(* when they are dropped, also when a later file is refused.               *)
(***************************************************************************)
EXTENDS Loaders, TLC
CONSTANTS Dims, MaxFiles, MaxBytes, Cell

VARIABLES dim, files, at, maps, flat, stage
vars == <<dim, files, at, maps, flat, stage>>

\* a file is a number of bytes; cell k of file f holds 100 * f + k
CellsOf(f) == [k \in 1 .. files[f] \div Cell |-> 100 * f + k]
Fits(f) == files[f] % (Cell * dim) = 0
RowsOf(f) == [r \in 1 .. files[f] \div (Cell * dim) |-> [k \in 1 .. dim |-> 100 * f + (r - 1) * dim + k]]
Whole == \A f \in 1 .. Len(files) : Fits(f) /\ files[f] > 0
Want == Rows([f \in 1 .. Len(files) |-> RowsOf(f)])

Init == /\ dim \in Dims /\ files \in UNION {[1 .. n -> 0 .. MaxBytes] : n \in 1 .. MaxFiles}
        /\ at = 1 /\ maps = {} /\ flat = <<>> /\ stage = "map"
\* an empty file cannot be mapped
MapFile == /\ stage = "map" /\ at <= Len(files)
           /\ IF files[at] = 0 \/ ~Fits(at) THEN stage' = "refused" /\ maps' = {} /\ at' = at
              ELSE maps' = maps \cup {at} /\ at' = at + 1 /\ stage' = stage
           /\ UNCHANGED <<dim, files, flat>>
Copy == /\ stage = "map" /\ at > Len(files)
        /\ IF maps = {} THEN stage' = "loaded" /\ UNCHANGED <<maps, flat>>
           ELSE LET f == Min(maps) IN flat' = flat \o CellsOf(f) /\ maps' = maps \ {f} /\ stage' = stage
        /\ UNCHANGED <<dim, files, at>>
Next == MapFile \/ Copy
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Len0 == Len(flat) \div dim
RowAt(i) == IF dim * i + dim > Len(flat) THEN "err" ELSE "ok"
Loaded == stage = "loaded" =>
    /\ Whole
    /\ Len0 = Len(Want)
    /\ \A i \in 0 .. Len0 - 1 : RowAt(i) = "ok" /\ SubSeq(flat, dim * i + 1, dim * i + dim) = Want[i + 1]
    /\ RowAt(Len0) = "err"
Refused == stage = "refused" => ~Whole
Released == stage # "map" => maps = {}
Ends == <>(stage # "map")
===============================================================================
