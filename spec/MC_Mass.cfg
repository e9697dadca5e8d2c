SPECIFICATION Spec
CONSTANTS E = 3
 Steps = 1
 Variant = "ok"
PROPERTIES Conserved
INVARIANT Agree
CHECK_DEADLOCK FALSE
