SPECIFICATION Spec
CONSTANTS E = 3
 Procs = 2
 Steps = 2
 Scratch = "own"
 Sends = "before"
 Within = "through"
INVARIANTS SameValues Near

