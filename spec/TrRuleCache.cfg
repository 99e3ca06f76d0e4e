CONSTANTS Verdict <- RuleCacheVerdict
 MaxDim = 4
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
