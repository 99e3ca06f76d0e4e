CONSTANT MaxDim = 4
CONSTANT Verdict <- LookupVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
