SPECIFICATION Spec
CONSTANTS Depth = 9
 MaxNp = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
