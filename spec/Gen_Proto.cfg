SPECIFICATION PSpec
CONSTANTS Depth = 9
 MaxNp = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
