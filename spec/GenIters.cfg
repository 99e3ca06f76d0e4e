CONSTANTS GiRegs = 2
 GiLast = 2
 GiLen = 3
 GiOneIn = 1
SPECIFICATION GiSpec
INVARIANT GiShow
CHECK_DEADLOCK FALSE
