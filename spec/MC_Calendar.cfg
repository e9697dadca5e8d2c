SPECIFICATION Spec
CONSTANTS Years = 6
 Cals = {"noleap", "standard"}
 Starts = {0, 95, 198, 396, 1896, 1997, 9993}
INVARIANTS TypeOK CountsDays Laws
CHECK_DEADLOCK FALSE
