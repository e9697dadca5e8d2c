SPECIFICATION SpecE
CONSTANTS MaxGroups = 5
 Depth = 0
 Opts = {"--n", "--nn", "--name", "--v", "--nope"}
 Texts = {"12", "n", ""}
INVARIANT EmitE
CHECK_DEADLOCK FALSE
