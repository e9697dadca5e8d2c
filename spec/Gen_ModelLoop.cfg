SPECIFICATION SpecG
CONSTANTS Lens = {0}
 Dts = {1}
 Freqs = {0}
 Ns = {0}
 MaxOut = 1
 MaxProc = 2
 Depth = 30
INVARIANT EmitG
CHECK_DEADLOCK FALSE
