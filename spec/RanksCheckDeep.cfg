CONSTANTS RkValues = {0, 1, 2, 3, 4}
 RkLen = 5
SPECIFICATION RkSpec
INVARIANTS RkValid RkDense RkIdempotent RkRestricts RkOnlyOne
CHECK_DEADLOCK FALSE
