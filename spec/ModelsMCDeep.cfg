SPECIFICATION Spec
CONSTANTS
  MaxObjs = 2
  MaxOps = 6
  Wide = FALSE
INVARIANTS Conform Rejects InvFunction InvFits InvHistory
VIEW View
CHECK_DEADLOCK FALSE
