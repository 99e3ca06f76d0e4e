CONSTANT MaxDim = 4
CONSTANT Verdict <- PyRulesVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
