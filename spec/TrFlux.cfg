CONSTANT MaxDim = 4
CONSTANT Verdict <- FluxVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
