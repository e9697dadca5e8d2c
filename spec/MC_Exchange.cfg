SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Rounds = 3
 WaitsForSends = TRUE
 ResetsReceived = TRUE
 PostsEveryRound = TRUE
INVARIANTS NoReuse RightRound AllThere OneAhead Nothing
PROPERTY Terminates
