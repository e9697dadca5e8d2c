SPECIFICATION Spec
CONSTANTS MaxSteps = 8
 MaxPer = 4
 Bases = {0, 5}
 Variant = "index"
INVARIANTS AllWritten Sized Ordered
CHECK_DEADLOCK FALSE
