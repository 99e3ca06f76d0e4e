CONSTANTS HDim = 3
 HIds = {0, 5}
 HRegs = 3
 HLen = 3
 HPaths = {0}
SPECIFICATION GHSpec
INVARIANTS GHShow GHType
CHECK_DEADLOCK FALSE
