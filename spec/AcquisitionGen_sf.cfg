SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  Mode = "sf"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
