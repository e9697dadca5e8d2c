SPECIFICATION SpecG
CONSTANTS MaxGroups = 0
 Depth = 40
 Opts = {}
 Texts = {}
INVARIANT EmitG
CHECK_DEADLOCK FALSE
