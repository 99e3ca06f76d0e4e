CONSTANTS MCRows = 2
 MCCols = 3
 MCBound = 2
SPECIFICATION MCSpec
INVARIANTS CauchyBinet PseudoInverse DetLaws
CHECK_DEADLOCK FALSE
