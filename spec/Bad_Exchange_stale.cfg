SPECIFICATION Spec
CONSTANTS Procs = {1, 2}
 Rounds = 2
 WaitsForSends = TRUE
 ResetsReceived = FALSE
 PostsEveryRound = TRUE
INVARIANTS NoReuse RightRound AllThere OneAhead Nothing
