CONSTANTS TkDim = 3
 TkKeys = {0, 1, 2, 3}
 TkFaces = {0, 1, 2, 3}
 TkLen = 7
 TkOneIn = 31
 TkShow = TRUE
SPECIFICATION TkSpec
INVARIANTS TkUnique TkRight TkSame TkNeeded TkPrint
PROPERTY TkStable
CHECK_DEADLOCK FALSE
