CONSTANTS TkDim = 2
 TkKeys = {0, 2, 3}
 TkFaces = {0, 3}
 TkLen = 4
 TkOneIn = 1
 TkShow = FALSE
SPECIFICATION TkSpec
INVARIANTS TkUnique TkRight TkSame TkNeeded TkPrint
PROPERTY TkStable
CHECK_DEADLOCK FALSE
