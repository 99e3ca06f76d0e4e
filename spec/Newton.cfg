CONSTANTS NLevels = 6
 NTol = 2
 NMaxIt = 4
 NMaxInner = 3
SPECIFICATION NSpec
INVARIANT NoWrongAnswer
PROPERTIES Descends Ends
CHECK_DEADLOCK FALSE
