SPECIFICATION Spec
CONSTANTS E = 3
 Procs = 2
 Steps = 2
 Scratch = "left"
 Sends = "after"
 Within = "through"
INVARIANTS SameValues Near

