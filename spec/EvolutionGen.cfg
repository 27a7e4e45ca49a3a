SPECIFICATION Spec
CONSTANTS
  MaxRuns = 3
  PsoPops = {2, 3, 5, 9}
  DePops = {3, 4, 5, 6}
  Gens = {1, 2, 3, 5, 8, 12}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
