SPECIFICATION Spec
CONSTANTS Depth = 6
 MaxNp = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
