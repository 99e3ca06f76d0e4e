CONSTANTS VGLen = 3
 VGAsks = {1, 2, 3}
SPECIFICATION VGSpec
INVARIANT VGShow
CHECK_DEADLOCK FALSE
