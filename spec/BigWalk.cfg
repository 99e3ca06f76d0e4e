CONSTANT BWTop = 16
 MaxDim = 2
SPECIFICATION BWSpec
INVARIANTS BWNear BWDigits
CHECK_DEADLOCK FALSE
