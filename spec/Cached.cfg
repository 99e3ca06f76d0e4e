CONSTANTS CGeos = {1, 2, 3}
 CAffine = {1, 2}
 CCopies = {10, 11, 13}
 CMakes = {1, 2, 3}
SPECIFICATION CSpec
INVARIANT CacheRight
CHECK_DEADLOCK FALSE
