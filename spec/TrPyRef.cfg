CONSTANT MaxDim = 4
CONSTANT Verdict <- PyRefVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
