CONSTANTS VGLen = 4
 VGAsks = {1}
SPECIFICATION VGSpec
INVARIANT VGShow
CHECK_DEADLOCK FALSE
