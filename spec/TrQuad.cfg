CONSTANTS Verdict <- QuadVerdict
 MaxDim = 5
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
