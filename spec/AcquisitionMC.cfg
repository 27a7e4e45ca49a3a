SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxSurs = 1
  MaxAcqs = 1
  Opts = {"stub"}
  Ratios = {"4"}
INVARIANTS Conform Rejects InvFunction Stale
VIEW View
CHECK_DEADLOCK FALSE
