CONSTANTS Verdict <- KeepingVerdict
SPECIFICATION TrSpec
CHECK_DEADLOCK FALSE
