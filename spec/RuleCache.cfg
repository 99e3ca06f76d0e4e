CONSTANTS Threads = {1, 2}
 Asks = 2
 Faults = 1
SPECIFICATION RCSpec
INVARIANTS RCOnlyOwn RCNoPoison RCBuilt
PROPERTIES RCRefines RCEnds
