SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Mode = "tour"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
