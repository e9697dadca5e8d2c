SPECIFICATION Spec
CONSTANTS Alphabet = {"1", "2", "-", ":", ".", " ", "y", "M", "d", "h", "m", "s", "u", "x"}
 MaxLen = 4
 Mode = "gen"
INVARIANT Emit
CHECK_DEADLOCK FALSE
