SPECIFICATION Spec
CONSTANTS E = 4
 Steps = 1
 Variant = "ok"
PROPERTIES Conserved
INVARIANT Agree
CHECK_DEADLOCK FALSE
