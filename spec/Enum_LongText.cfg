SPECIFICATION SpecL
CONSTANTS Alphabet = {"1", "2", "-", ":", ".", " ", "y", "M", "d", "h", "m", "s", "u", "x"}
 MaxLen = 4
 Mode = "gen"
CHECK_DEADLOCK FALSE
