SPECIFICATION Spec
CONSTANTS Depth = 3
 MaxNp = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
