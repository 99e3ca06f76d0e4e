CONSTANTS Verdict <- RefineVerdict
 MaxDim = 4
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
