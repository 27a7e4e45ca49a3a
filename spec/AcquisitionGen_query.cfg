SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  Mode = "query"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
