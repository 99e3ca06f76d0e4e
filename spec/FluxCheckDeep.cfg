CONSTANTS MaxDim = 4
 FxDegree = 3
 FxBent = 3
SPECIFICATION FxSpec
INVARIANTS Gauss Ends Places
CHECK_DEADLOCK FALSE
