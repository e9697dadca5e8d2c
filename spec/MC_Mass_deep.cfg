SPECIFICATION Spec
CONSTANTS E = 2
 Steps = 3
 Variant = "ok"
PROPERTIES Conserved
INVARIANT Agree
CHECK_DEADLOCK FALSE
