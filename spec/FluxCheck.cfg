CONSTANTS MaxDim = 3
 FxDegree = 2
 FxBent = 2
SPECIFICATION FxSpec
INVARIANTS Gauss Ends Places
CHECK_DEADLOCK FALSE
