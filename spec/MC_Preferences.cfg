SPECIFICATION Spec
CONSTANTS Alphabet = {}
 MaxLen = 2
 Depth = 0
 Mode = "laws"
INVARIANT ReadsBack
CHECK_DEADLOCK FALSE
