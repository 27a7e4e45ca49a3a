SPECIFICATION Spec
CONSTANTS
  Loops = {"sf"}
  Values0 = {"-2", "-1", "0", "1", "-1.9999999", "-2.0000001", "30"}
  Cons0 = {"-1", "0", "1", "1e-9", "-1e-9"}
  NumCons = 1
  Sizes <- SizesLong
  MaxRuns = 2
  Budgets = {3, 9}
  Thresholds = {"0.5", "0"}
  Optima = {"none", "-5"}
  Fails = FALSE
  Again = TRUE
  Record = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
