CONSTANTS TkDim = 2
 TkKeys = {0, 1, 2, 3}
 TkFaces = {0, 1, 2, 3}
 TkLen = 4
 TkOneIn = 9
 TkShow = TRUE
SPECIFICATION TkSpec
INVARIANTS TkUnique TkRight TkSame TkNeeded TkPrint
PROPERTY TkStable
CHECK_DEADLOCK FALSE
