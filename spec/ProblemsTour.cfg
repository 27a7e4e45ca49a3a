SPECIFICATION Spec
CONSTANTS
  MaxOps = 1
  Mode = "tour"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
