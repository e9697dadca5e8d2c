------------------------------ MODULE Continue ------------------------------
(* A run that is stopped anywhere and continued from one of its restart files.     *)
(* A step takes the state, what the integrator remembers of the step before and    *)
(* the set-up of the model (constants, levels). The file holds time and state; the  *)
(* set-up is made again for the continued run, the memory is lost. Continuing may    *)
(* itself be interrupted and continued.                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Steps,            \* length of the run
          Every, FileEvery, \* outputs every Every steps, restart files every FileEvery; counting from where it was continued, outputs only keep their times when the one divides the other
          SelfStarting,     \* the integrator remembers nothing
          SetupAgain,       \* the set-up of a continued run is that of the first run
          Origin            \* "start": outputs are due on multiples from the start of the run; "restart": from where it was continued
VARIABLES now, x, mem, setup, outs, files, begun, life
vars == <<now, x, mem, setup, outs, files, begun, life>>
F(y, m, s) == (3 * y + 5 * m + 7 * s + 2) % 31
M(y) == IF SelfStarting THEN 0 ELSE 1 + (y % 3)
\* the uninterrupted run
RECURSIVE X(_)
RECURSIVE Mem(_)
X(n) == IF n = 0 THEN 4 ELSE F(X(n - 1), Mem(n - 1), 1)
Mem(n) == IF n = 0 THEN 0 ELSE M(X(n - 1))
Due(n, from, k) == n = from \/ (n - from) % k = 0 \/ n = Steps
Outs(lo) == {<<n, X(n)>> : n \in {n \in lo..Steps : Due(n, 0, Every)}}
Init == /\ now = 0 /\ x = 4 /\ mem = 0 /\ setup = 1 /\ outs = {<<0, 4>>} /\ files = {<<0, 4>>} /\ begun = 0 /\ life = 0
Step == /\ now < Steps /\ now' = now + 1 /\ x' = F(x, mem, setup) /\ mem' = M(x)
        /\ outs' = IF Due(now + 1, begun, Every) THEN outs \cup {<<now + 1, x'>>} ELSE outs
        /\ files' = IF Due(now + 1, begun, FileEvery) THEN files \cup {<<now + 1, x'>>} ELSE files
        /\ UNCHANGED <<setup, begun, life>>
\* stopped, and continued from a file; what was output until then is gone
Continue == /\ life < 2 /\ \E f \in files : /\ now' = f[1] /\ x' = f[2] /\ mem' = 0 /\ setup' = IF SetupAgain THEN 1 ELSE 0
               /\ outs' = {f} /\ begun' = (IF Origin = "restart" THEN f[1] ELSE 0)
            /\ life' = life + 1 /\ UNCHANGED files
Next == Step \/ Continue \/ (now = Steps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
\* ---- what must hold
SameState == x = X(now)
SameOutputs == now = Steps => LET lo == CHOOSE n \in {o[1] : o \in outs} : \A o \in outs : n <= o[1] IN outs = Outs(lo)
Ends == <>[](now = Steps)
=============================================================================
