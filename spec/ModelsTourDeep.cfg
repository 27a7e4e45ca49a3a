SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Mode = "tour"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
