SPECIFICATION Spec
CONSTANTS E = 2
 Steps = 2
 Variant = "leak"
PROPERTIES Conserved
INVARIANT Agree
CHECK_DEADLOCK FALSE
