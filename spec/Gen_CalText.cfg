SPECIFICATION Spec
CONSTANTS Depth = 20
 Cals = {"noleap", "standard"}
 Ops = {"text"}
 EYears = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
