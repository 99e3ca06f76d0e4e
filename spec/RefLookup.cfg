CONSTANTS Threads = {"a", "b", "c"}
 Keys = {1, 2, 3}
 Asks = 2
SPECIFICATION RLSpec
INVARIANTS RLComplete RLSame RLOnce
PROPERTIES RLAnswered RLStable
CHECK_DEADLOCK FALSE
