SPECIFICATION SpecD
CONSTANTS Lens = {0, 3, 7}
 Dts = {1, 2, 4}
 Freqs = {0, 1, 2, 3}
 Ns = {0, 2}
 MaxOut = 1
 MaxProc = 2
 Depth = 0
CHECK_DEADLOCK FALSE
