SPECIFICATION SpecE
CONSTANTS Alphabet = {"a", "=", " ", "#", "\n", "1"}
 MaxLen = 5
 Depth = 0
 Mode = "enum"
INVARIANT EmitE
CHECK_DEADLOCK FALSE
