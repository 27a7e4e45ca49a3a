SPECIFICATION Spec
CONSTANTS
  Kinds = {"lhs", "sobol", "mflhs", "mfsobol"}
  MaxObjs = 2
  MaxOps = 4
  Seeds = {1, 2}
  Names = {"a", "b"}
  MaxN = 2
INVARIANTS Conform Rejects InvSeen InvNested InvRows InvFiles
PROPERTIES OneFile
CHECK_DEADLOCK FALSE
