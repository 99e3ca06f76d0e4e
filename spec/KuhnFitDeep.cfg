CONSTANTS KDims = {1, 2, 3, 4}
 KMaxN = 6
 MaxDim = 4
SPECIFICATION KSpec
INVARIANTS KNeighbours KNested KTrace
POSTCONDITION KAll
CHECK_DEADLOCK FALSE
