CONSTANTS GiRegs = 3
 GiLast = 4
 GiLen = 6
 GiOneIn = 9
SPECIFICATION GiSpec
INVARIANT GiShow
CHECK_DEADLOCK FALSE
