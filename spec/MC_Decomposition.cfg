SPECIFICATION Spec
CONSTANTS E = 4
 Procs = 2
 Steps = 3
 Scratch = "own"
 Sends = "after"
 Within = "through"
INVARIANTS SameValues Near
PROPERTY Ends
