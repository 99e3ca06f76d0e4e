CONSTANTS GiRegs = 2
 GiLast = 2
 GiLen = 4
 GiOneIn = 2
SPECIFICATION GiSpec
INVARIANT GiShow
CHECK_DEADLOCK FALSE
