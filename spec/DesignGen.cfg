SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  Kinds <- AllKinds
  Hows <- AllHows
INVARIANTS Emit
CHECK_DEADLOCK FALSE
