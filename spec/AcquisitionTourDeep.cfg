SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Mode = "tour"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
