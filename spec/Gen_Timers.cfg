SPECIFICATION SpecG
CONSTANTS Ids = {1, 2, 3, 4}
 Groups = {}
 Ticks = {}
 Depth = 60
 MaxNow = 2
 MaxDone = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
