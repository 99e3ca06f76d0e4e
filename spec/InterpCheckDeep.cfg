CONSTANTS MaxDim = 4
 GridDen = 3
SPECIFICATION ICSpec
INVARIANTS ICUnity ICConvex ICReproduce ICNodal ICTrace
CHECK_DEADLOCK FALSE
