CONSTANTS IThreads = 2
 IFuns = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
 IStops = {1, 2, 3, 5}
 IPlace <- OwnPlace
 ILen = 4
 IEvery = 1
 ITakes = FALSE
SPECIFICATION GNSpec
INVARIANTS GNShow
CHECK_DEADLOCK FALSE
