SPECIFICATION Spec
CONSTANTS
  MaxOps = 10
  Kinds = {"sobol", "mfsobol"}
  Hows = {"smaller", "larger", "reskip"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
