------------------------------ MODULE TimersMC ------------------------------
(* Timers.tla against an independent account: the list of all sections ever   *)
(* completed, with the clock readings that bound them; and generation.         *)
EXTENDS Timers, Json, TLC
CONSTANTS Ids, Groups, Ticks, Depth, MaxNow, MaxDone
VARIABLES s, done, hist
vars == <<s, done, hist>>
Free == Ids \ DOMAIN s.tm
Op(e) == s' = Do(s, e)
Log(i) == IF s.tm[i].g = "" THEN done ELSE Append(done, [g |-> s.tm[i].g, a |-> s.tm[i].t0, b |-> s.now])
Init == s = Fresh /\ done = <<>> /\ hist = <<>>
Next == /\ UNCHANGED hist
        /\ \/ \E d \in Ticks : s.now[1] + s.now[2] < MaxNow /\ Op([op |-> "tick", d |-> <<d \div M, d % M>>]) /\ UNCHANGED done
           \/ \E i \in Free, g \in Groups \cup {""} : Op([op |-> "new", i |-> i, g |-> g]) /\ UNCHANGED done
           \/ \E i \in DOMAIN s.tm : Op([op |-> "reset", i |-> i]) /\ UNCHANGED done
           \/ \E i \in DOMAIN s.tm, o \in {"stop", "kill"} : Len(done) < MaxDone /\ Op([op |-> o, i |-> i]) /\ done' = Log(i)
           \/ \E g \in Groups : Op([op |-> "clear", g |-> g]) /\ done' = SelectSeq(done, LAMBDA x : x.g # g)
Spec == Init /\ [][Next]_vars
Of(g) == SelectSeq(done, LAMBDA x : x.g = g)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN Zero2 ELSE PAdd(PSub(Head(q).b, Head(q).a), Sum(Tail(q)))
CountsEachOnce == \A g \in Groups : Count(s, g) = Len(Of(g)) /\ Total(s, g) = Sum(Of(g))
NoSectionFromTheFuture == \A k \in 1..Len(done) : PSub(done[k].b, done[k].a)[1] >= 0
Averages == \A g \in DOMAIN s.gr : LET q == PDiv(s.gr[g].tot, s.gr[g].n) IN q[1] * s.gr[g].n <= s.gr[g].tot[1]
\* a group is disturbed only by its own timers and its own reset
Isolation == [][\A g \in Groups : (Count(s, g) # Count(s', g) => \E i \in DOMAIN s.tm : s.tm[i].g = g) \/ Count(s', g) = 0]_vars

\* generation
Rnd(S) == RandomElement(IF hist = <<>> THEN S ELSE S)
GNames == {"Loop", "Loop2", "Communicate", ""}
Tick(z) == Rnd({<<0, Rnd(0..3)>>, <<0, Rnd(0..999999)>>, <<Rnd(0..5), Rnd(0..999999)>>, <<0, 999999>>, <<1, 0>>, <<Rnd(0..5000), Rnd(0..999999)>>})
Gen(e) == s' = Do(s, e) /\ hist' = Append(hist, e) /\ UNCHANGED done
NextG == \E k \in {Rnd(1..12)}, i \in {Rnd(1..4)}, g \in {Rnd(GNames)}, d \in {Tick(0)} :
  CASE k \in 1..3 -> Gen([op |-> "tick", d |-> d])
    [] k = 12 -> Gen([op |-> "clear", g |-> g])
    [] OTHER -> IF i \notin DOMAIN s.tm THEN Gen([op |-> "new", i |-> i, g |-> g])
                ELSE Gen([op |-> CASE k \in 4..5 -> "reset" [] k \in 6..7 -> "peek" [] k \in 8..9 -> "stop" [] OTHER -> "kill", i |-> i])
SpecG == Init /\ [][NextG]_vars
Emit == TLCGet("level") = Depth => PrintT(ToJson(hist))
=============================================================================
