SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Mode = "walk"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
