SPECIFICATION Spec
CONSTANTS E = 3
 Procs = 2
 Steps = 2
 Scratch = "own"
 Sends = "after"
 Within = "skipped"
INVARIANTS SameValues Near

