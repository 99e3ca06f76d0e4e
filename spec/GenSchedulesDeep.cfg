CONSTANTS SThreads = 3
 SKeys = {1, 4}
 SLen = 6
 SEvery = 1
SPECIFICATION GSSpec
INVARIANTS GSShow
CHECK_DEADLOCK FALSE
