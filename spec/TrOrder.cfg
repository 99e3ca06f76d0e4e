CONSTANTS Verdict <- VOrderVerdict
 MaxDim = 4
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
