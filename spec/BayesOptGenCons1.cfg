SPECIFICATION Spec
CONSTANTS
  Loops = {"cons"}
  Values0 = {"-2", "-1", "0", "1", "-1.9999999", "-2.0000001", "30"}
  Cons0 = {"-1", "0", "1", "1e-9", "-1e-9"}
  NumCons = 1
  Sizes <- SizesGen
  MaxRuns = 3
  Budgets = {0, 1, 2, 3}
  Thresholds = {"0.5", "1", "0", "2"}
  Optima = {"none", "0", "-2", "1"}
  Fails = TRUE
  Again = TRUE
  Record = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
