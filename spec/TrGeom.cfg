CONSTANT MaxDim = 4
CONSTANT Verdict <- GeomVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
