CONSTANTS Verdict <- BigVerdict
 MaxDim = 3
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
