CONSTANT MaxDim = 3
CONSTANT Verdict <- TypesVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
