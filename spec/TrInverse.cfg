CONSTANT Verdict <- InvVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
