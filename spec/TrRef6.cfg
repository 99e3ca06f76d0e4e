CONSTANT MaxDim = 6
CONSTANT Verdict <- RefVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
