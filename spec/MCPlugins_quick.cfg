SPECIFICATION Spec
CONSTANTS
  Nodes = 3
  Probes = {1}
  Vers = 2
  Reads = 2
  Readers = {1}
INVARIANTS Exact Below Complete Possible Limits Totals
CHECK_DEADLOCK FALSE
