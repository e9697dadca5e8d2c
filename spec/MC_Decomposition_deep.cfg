SPECIFICATION Spec
CONSTANTS E = 5
 Procs = 3
 Steps = 2
 Scratch = "own"
 Sends = "after"
 Within = "through"
INVARIANTS SameValues Near

