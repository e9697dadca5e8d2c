SPECIFICATION Spec
CONSTANTS MaxSteps = 8
 MaxPer = 4
 Bases = {0, 5}
 Variant = "ok"
INVARIANTS AllWritten Sized Ordered
CHECK_DEADLOCK FALSE
