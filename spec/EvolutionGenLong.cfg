SPECIFICATION Spec
CONSTANTS
  MaxRuns = 2
  PsoPops = {12, 33, 70}
  DePops = {8, 11}
  Gens = {2, 12, 25}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
