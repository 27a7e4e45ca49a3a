SPECIFICATION Spec
CONSTANTS
  Classes = {"Forrester", "Forrester_1b", "Ackley", "Branin_1", "mf_Park91B"}
  MaxObjs = 2
  MaxOps = 5
  Grid = 80
INVARIANTS Conform Rejects InvFunction InvDims
PROPERTIES Stable
CHECK_DEADLOCK FALSE
