SPECIFICATION Spec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
CONSTANTS NA = 3
 NC = 2
 ExtLen = 48
