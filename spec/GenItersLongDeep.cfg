CONSTANTS GiRegs = 3
 GiLast = 4
 GiLen = 7
 GiOneIn = 9
SPECIFICATION GiSpec
INVARIANT GiShow
CHECK_DEADLOCK FALSE
