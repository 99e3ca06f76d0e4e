CONSTANTS MaxDim = 3
 GridDen = 4
SPECIFICATION ICSpec
INVARIANTS ICUnity ICConvex ICReproduce ICNodal ICTrace
CHECK_DEADLOCK FALSE
