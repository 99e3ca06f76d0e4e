CONSTANTS MaxDim = 4
 Degree = 7
SPECIFICATION MMSpec
INVARIANTS Commutes ClosedForm LayerCake
CHECK_DEADLOCK FALSE
