CONSTANTS MaxDim = 3
 FreeLen = 5
 FreeNames = {"cube", "general", "line", "foo"}
SPECIFICATION GSSpec
INVARIANTS GSShow GSMeaning
CHECK_DEADLOCK FALSE
