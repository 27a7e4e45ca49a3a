SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxSurs = 2
  MaxAcqs = 1
  Opts = {"none", "stub"}
  Ratios = {"1", "4"}
INVARIANTS Conform Rejects InvFunction Stale
VIEW View
CHECK_DEADLOCK FALSE
