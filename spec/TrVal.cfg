CONSTANT Verdict <- ValVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
