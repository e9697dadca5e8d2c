SPECIFICATION Spec
CONSTANTS E = 2
 Steps = 2
 Variant = "split"
PROPERTIES Conserved
INVARIANT Agree
CHECK_DEADLOCK FALSE
