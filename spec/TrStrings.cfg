CONSTANT MaxDim = 3
CONSTANT Verdict <- StringsVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
