SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Mode = "parts"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
