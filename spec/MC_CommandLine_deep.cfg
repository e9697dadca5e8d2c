SPECIFICATION Spec
CONSTANTS MaxGroups = 4
 Depth = 0
 Opts = {"--n", "--name", "--v", "--nu"}
 Texts = {"12", "-7", "n", "--"}
INVARIANTS Faithful OrderFree Lacking
CHECK_DEADLOCK FALSE
