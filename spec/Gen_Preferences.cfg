SPECIFICATION SpecG
CONSTANTS Alphabet = {}
 MaxLen = 0
 Depth = 41
 Mode = "gen"
INVARIANT EmitG
CHECK_DEADLOCK FALSE
