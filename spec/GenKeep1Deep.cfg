CONSTANTS TkDim = 1
 TkKeys = {0, 1, 2, 3}
 TkFaces = {0, 1, 2}
 TkLen = 3
 TkOneIn = 2
 TkShow = TRUE
SPECIFICATION TkSpec
INVARIANTS TkUnique TkRight TkSame TkNeeded TkPrint
PROPERTY TkStable
CHECK_DEADLOCK FALSE
