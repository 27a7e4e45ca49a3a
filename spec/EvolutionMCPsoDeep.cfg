SPECIFICATION Spec
CONSTANTS
  Alg = "pso"
  Pop = 2
  Gens = 2
  Dims = 1
  Top = 3
  Values0 = {"0", "1", "2"}
  Fails = TRUE
  Thresholds = {"none", "1"}
  Pars <- ParDeep
INVARIANTS Conform Rejects InvE01 InvE02 InvE03 InvE04 InvE05
CHECK_DEADLOCK FALSE
