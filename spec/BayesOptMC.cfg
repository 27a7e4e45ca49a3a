SPECIFICATION Spec
CONSTANTS
  Loops = {"sf", "cons", "mf"}
  Values0 = {"-1", "0"}
  Cons0 = {"0", "1"}
  NumCons = 1
  Sizes <- SizesSmall
  MaxRuns = 2
  Budgets = {0, 2}
  Thresholds = {"0.5", "1"}
  Optima = {"none", "0", "-1"}
  Fails = TRUE
  Again = FALSE
  Record = FALSE
INVARIANTS Conform Rejects InvB01 InvB02 InvB03 InvB05
PROPERTIES AppendOnly FailureLeavesNoMark
CHECK_DEADLOCK FALSE
