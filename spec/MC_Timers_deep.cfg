SPECIFICATION Spec
CONSTANTS Ids = {1, 2}
 Groups = {"A", "B"}
 Ticks = {1, 1999999}
 Depth = 0
 MaxNow = 2
 MaxDone = 3
INVARIANTS CountsEachOnce NoSectionFromTheFuture Averages
PROPERTY Isolation
CHECK_DEADLOCK FALSE
