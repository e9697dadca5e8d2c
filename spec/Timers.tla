------------------------------- MODULE Timers -------------------------------
(* Timing groups: timers measure sections with a clock and store completed     *)
(* sections in their group. Times are pairs <<seconds, microseconds>>.         *)
EXTENDS Integers, Sequences, FiniteSets
M == 1000000
PAdd(a, b) == <<a[1] + b[1] + ((a[2] + b[2]) \div M), (a[2] + b[2]) % M>>
PSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + M - b[2]>>
\* floor of a pair divided by n
PDiv(a, n) == LET r == (a[1] % n) * M + a[2] IN <<(a[1] \div n) + ((r \div n) \div M), (r \div n) % M>>
Zero2 == <<0, 0>>

\* state: now, tm (timer id -> [g, t0]), gr (group -> [n, tot]); the group "" collects nothing
Fresh == [now |-> Zero2, tm |-> <<>>, gr |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Elapsed(s, i) == PSub(s.now, s.tm[i].t0)
Count(s, g) == IF g \in DOMAIN s.gr THEN s.gr[g].n ELSE 0
Total(s, g) == IF g \in DOMAIN s.gr THEN s.gr[g].tot ELSE Zero2
Store(s, i) == LET g == s.tm[i].g IN
  IF g = "" THEN s ELSE [s EXCEPT !.gr = Put(@, g, [n |-> Count(s, g) + 1, tot |-> PAdd(Total(s, g), Elapsed(s, i))])]
\* operations: the next state
Do(s, e) ==
  CASE e.op = "tick"  -> [s EXCEPT !.now = PAdd(@, e.d)]
    [] e.op = "new"   -> [s EXCEPT !.tm = Put(@, e.i, [g |-> e.g, t0 |-> s.now])]
    [] e.op = "reset" -> [s EXCEPT !.tm = Put(@, e.i, [g |-> s.tm[e.i].g, t0 |-> s.now])]
    [] e.op = "peek"  -> s
    [] e.op = "stop"  -> Store(s, e.i)
    [] e.op = "kill"  -> [Store(s, e.i) EXCEPT !.tm = Drop(s.tm, e.i)]
    [] e.op = "clear" -> [s EXCEPT !.gr = IF e.g \in DOMAIN @ THEN Drop(@, e.g) ELSE @]
=============================================================================
