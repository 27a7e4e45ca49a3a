SPECIFICATION Spec
CONSTANTS
  MaxObjs = 1
  MaxOps = 4
  Wide = FALSE
INVARIANTS Conform Rejects InvFunction InvFits InvHistory
VIEW View
CHECK_DEADLOCK FALSE
