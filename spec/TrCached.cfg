CONSTANT MaxDim = 3
CONSTANT Verdict <- CachedVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
