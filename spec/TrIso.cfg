CONSTANT MaxDim = 4
CONSTANT Verdict <- IsoVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
