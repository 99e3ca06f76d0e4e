CONSTANTS KDims = {1, 2, 3, 4}
 KMaxN = 7
 MaxDim = 4
SPECIFICATION KSpec
INVARIANTS KUnit KIn KLocate KNeighbours
POSTCONDITION KAll
CHECK_DEADLOCK FALSE
