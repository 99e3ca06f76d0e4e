CONSTANTS HDim = 2
 HIds = {0, 1, 3}
 HRegs = 2
 HLen = 3
 HPaths = {0}
SPECIFICATION GHSpec
INVARIANTS GHShow GHType
CHECK_DEADLOCK FALSE
