SPECIFICATION SpecE
CONSTANTS Depth = 40
 Cals = {"noleap", "standard"}
 Ops = {"arith"}
 EYears = {2,3,4,5,96,99,100,101,399,400,401,1000,1582,1900,1999,2000,2001,2004,2100,3000,4000,9995}
CHECK_DEADLOCK FALSE
