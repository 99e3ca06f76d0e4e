CONSTANT MaxDim = 4
CONSTANT Verdict <- PyGeoVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
