CONSTANT MaxDim = 5
CONSTANT Verdict <- RefVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
