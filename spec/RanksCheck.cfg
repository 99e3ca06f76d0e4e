CONSTANTS RkValues = {0, 1, 2, 3, 4}
 RkLen = 4
SPECIFICATION RkSpec
INVARIANTS RkValid RkDense RkIdempotent RkRestricts RkOnlyOne
CHECK_DEADLOCK FALSE
