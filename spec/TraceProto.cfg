SPECIFICATION SpecP
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
