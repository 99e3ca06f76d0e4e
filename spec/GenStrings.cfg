CONSTANTS MaxDim = 3
 FreeLen = 4
 FreeNames = {"cube", "general", "line", "foo"}
SPECIFICATION GSSpec
INVARIANTS GSShow GSMeaning
CHECK_DEADLOCK FALSE
