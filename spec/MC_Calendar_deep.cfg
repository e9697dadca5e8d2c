SPECIFICATION Spec
CONSTANTS Years = 405
 Cals = {"noleap", "standard"}
 Starts = {0, 1600}
INVARIANTS TypeOK CountsDays Laws
CHECK_DEADLOCK FALSE
