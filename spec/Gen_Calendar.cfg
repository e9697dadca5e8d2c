SPECIFICATION Spec
CONSTANTS Depth = 40
 Cals = {"noleap", "standard"}
 Ops = {"arith"}
 EYears = {}
INVARIANT Emit
CHECK_DEADLOCK FALSE
