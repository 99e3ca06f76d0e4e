CONSTANTS VPRegs = {1, 2, 3}
 VPValues = {1, 2, 3}
 VPParts = 3
 VPLeft = {}
SPECIFICATION VPSpec
INVARIANT LikeValues
CHECK_DEADLOCK FALSE
