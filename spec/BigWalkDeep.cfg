CONSTANT BWTop = 40
 MaxDim = 2
SPECIFICATION BWSpec
INVARIANTS BWNear BWDigits
CHECK_DEADLOCK FALSE
