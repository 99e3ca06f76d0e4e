CONSTANTS MaxDim = 3
 Degree = 6
SPECIFICATION MMSpec
INVARIANTS Commutes ClosedForm LayerCake
CHECK_DEADLOCK FALSE
