CONSTANTS VPRegs = {1, 2, 3, 4}
 VPValues = {1, 2, 3, 4}
 VPParts = 3
 VPLeft = {}
SPECIFICATION VPSpec
INVARIANT LikeValues
CHECK_DEADLOCK FALSE
