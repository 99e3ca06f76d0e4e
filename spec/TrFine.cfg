CONSTANT MaxDim = 4
CONSTANT Verdict <- FineVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
