CONSTANT Verdict <- MatVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
