CONSTANTS CGeos = {1, 2, 3}
 CAffine = {1, 2}
 CCopies = {10, 11}
 CMakes = {2}
 CLen = 3
 CStartSets <- GCStart1
SPECIFICATION GCSpec
INVARIANTS GCShow CacheRight
CHECK_DEADLOCK FALSE
