CONSTANTS IrRegs = 3
 IrLast = 4
SPECIFICATION IrSpec
INVARIANTS IrRefines IrOwned
CHECK_DEADLOCK FALSE
