CONSTANTS MCRows = 3
 MCCols = 3
 MCBound = 1
SPECIFICATION MCSpec
INVARIANTS CauchyBinet PseudoInverse DetLaws
CHECK_DEADLOCK FALSE
