SPECIFICATION Spec
CONSTANTS MaxSteps = 14
 MaxPer = 7
 Bases = {0, 5}
 Variant = "ok"
INVARIANTS AllWritten Sized Ordered
CHECK_DEADLOCK FALSE
