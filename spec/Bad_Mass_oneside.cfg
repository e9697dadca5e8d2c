SPECIFICATION Spec
CONSTANTS E = 2
 Steps = 2
 Variant = "oneside"
PROPERTIES Conserved
INVARIANT Agree
CHECK_DEADLOCK FALSE
