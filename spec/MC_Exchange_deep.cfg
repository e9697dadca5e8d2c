SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Rounds = 3
 WaitsForSends = TRUE
 ResetsReceived = TRUE
 PostsEveryRound = TRUE
INVARIANTS NoReuse RightRound AllThere OneAhead Nothing
PROPERTY Terminates
