SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  Mode = "mf"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
