SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Kinds = {"mflhs", "mfsobol"}
  Hows = {"same", "fresh", "smaller", "larger", "reseeded"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
