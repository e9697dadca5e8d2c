SPECIFICATION Spec
CONSTANTS Procs = {1, 2, 3}
 Rounds = 2
 WaitsForSends = TRUE
 ResetsReceived = TRUE
 PostsEveryRound = TRUE
INVARIANTS NoReuse RightRound AllThere OneAhead Nothing
