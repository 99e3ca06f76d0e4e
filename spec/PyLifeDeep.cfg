CONSTANTS LfRules = {1, 2}
 LfLen = 8
 LfKeeps = {"iter", "point"}
SPECIFICATION LfSpec
INVARIANTS LfNoDangling LfShows
CHECK_DEADLOCK FALSE
