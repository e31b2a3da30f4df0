------------------------------- MODULE MCPersist -------------------------------
(***************************************************************************)
(* Every tree the builder can make on small problems, saved and loaded     *)
(* over and over into two files.                                           *)
(***************************************************************************)
EXTENDS MCBuild
PS == INSTANCE Persist

VARIABLES mem,     \* the tree in memory: [T, root, prm, home]
          disk,    \* path -> file or <<>>
          orig     \* the tree that was built
pvars == <<bvars, mem, disk, orig>>
Paths == {"f", "g"}
None == <<>>

PInit == Init /\ mem = None /\ disk = [p \in Paths |-> None] /\ orig = None
Prm == [minres |-> prob.minres, leaf |-> prob.leaf, single |-> prob.single, part |-> prob.part]
PBuild == ~done /\ Next /\ UNCHANGED <<mem, disk, orig>>
Built == /\ done /\ mem = None /\ orig = None
         /\ mem' = [T |-> tree, root |-> Addr(RootWork(prob)), prm |-> Prm,
                    home |-> [x \in Points(prob) |-> CHOOSE a \in Homes(tree, x) : TRUE]]
         /\ orig' = mem'
         /\ UNCHANGED <<bvars, disk>>
Save(p) == /\ mem # None
           /\ disk' = [disk EXCEPT ![p] = PS!Encode(mem.T, mem.root, mem.prm)]
           /\ UNCHANGED <<bvars, mem, orig>>
Load(p) == /\ disk[p] # None
           /\ LET T == PS!Decode(disk[p])
              IN mem' = [T |-> T, root |-> disk[p].root, prm |-> disk[p].prm,
                         home |-> PS!HomesFrom(T, disk[p].root)]
           /\ UNCHANGED <<bvars, disk, orig>>
Close == mem # None /\ mem' = None /\ UNCHANGED <<bvars, disk, orig>>
PNext == PBuild \/ Built \/ \E p \in Paths : Save(p) \/ Load(p) \/ Close
PSpec == PInit /\ [][PNext]_pvars

SameTree == mem # None => mem = orig
===============================================================================
