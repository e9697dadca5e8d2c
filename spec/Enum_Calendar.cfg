SPECIFICATION SpecE
CONSTANTS Depth = 40
 Cals = {"noleap", "standard"}
 Ops = {"arith"}
 EYears = {2,4,1900,1999,2000,2004,3000}
CHECK_DEADLOCK FALSE
