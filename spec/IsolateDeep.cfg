CONSTANTS IThreads = 3
 IFuns = {0, 1, 2, 3, 4}
 IStops = {1}
 IPlace <- OwnPlace
SPECIFICATION ISpec
INVARIANTS IAlone
CHECK_DEADLOCK FALSE
