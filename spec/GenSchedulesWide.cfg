CONSTANTS SThreads = 3
 SKeys = {1, 2, 3, 5, 6, 7}
 SLen = 5
 SEvery = 41
SPECIFICATION GSSpec
INVARIANTS GSShow
CHECK_DEADLOCK FALSE
