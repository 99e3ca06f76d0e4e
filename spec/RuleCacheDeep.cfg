CONSTANTS Threads = {1, 2, 3}
 Asks = 1
 Faults = 2
SPECIFICATION RCSpec
INVARIANTS RCOnlyOwn RCNoPoison RCBuilt
PROPERTIES RCRefines RCEnds
