SPECIFICATION Spec
CONSTANTS Depth = 0
 MaxOps = 5
INVARIANTS EachOnce NoMore Nesting
CHECK_DEADLOCK FALSE
