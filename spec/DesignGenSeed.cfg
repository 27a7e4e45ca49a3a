SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Kinds = {"lhs", "random", "mflhs", "mfsobol"}
  Hows = {"same", "fresh", "seeds"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
