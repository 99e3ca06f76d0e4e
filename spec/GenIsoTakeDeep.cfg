CONSTANTS IThreads = 3
 IFuns = {0, 1, 3, 5}
 IStops = {1}
 IPlace <- OwnPlace
 ILen = 6
 IEvery = 2
 ITakes = TRUE
SPECIFICATION GNSpec
INVARIANTS GNShow
CHECK_DEADLOCK FALSE
