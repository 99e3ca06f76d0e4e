CONSTANTS MaxDim = 2
 FCBound = 40
SPECIFICATION FCSpec
INVARIANTS Division NearItself NotNearOthers Roots Inverses
CHECK_DEADLOCK FALSE
