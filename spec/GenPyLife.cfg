CONSTANTS LfRules = {1, 2}
 LfLen = 6
 LfKeeps = {"iter", "point"}
SPECIFICATION LfSpec
INVARIANTS LfNoDangling LfShows LfShow
CHECK_DEADLOCK FALSE
