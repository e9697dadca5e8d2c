SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Rounds = 2
 WaitsForSends = FALSE
 ResetsReceived = TRUE
 PostsEveryRound = TRUE
INVARIANTS NoReuse RightRound AllThere OneAhead Nothing
