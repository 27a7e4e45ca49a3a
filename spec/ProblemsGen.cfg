SPECIFICATION Spec
CONSTANTS
  MaxOps = 10
  Mode = "walk"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
