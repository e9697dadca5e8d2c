------------------------------ MODULE Exchange ------------------------------
(* The exchange protocol between processes: every process repeatedly waits for   *)
(* its previous sends, posts one receive per partner, packs, sends one message    *)
(* per partner (itself included when it holds neighbouring patches) and unpacks   *)
(* messages as they arrive. The communication library may read a send buffer at   *)
(* any time until the send is complete and may deliver messages of different      *)
(* partners in any order.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Rounds, WaitsForSends, ResetsReceived, PostsEveryRound
VARIABLES pc, k, sbuf, flight, rbuf, posted, arrived, received, halo
vars == <<pc, k, sbuf, flight, rbuf, posted, arrived, received, halo>>
Init == /\ pc = [p \in Procs |-> "wait"] /\ k = [p \in Procs |-> 1]
        /\ sbuf = [p \in Procs |-> 0]                 \* content of the send buffers: the exchange they were packed for
        /\ flight = [p \in Procs |-> [q \in Procs |-> <<>>]]
        /\ rbuf = [p \in Procs |-> [q \in Procs |-> 0]]
        /\ posted = [p \in Procs |-> {}] /\ arrived = [p \in Procs |-> {}] /\ received = [p \in Procs |-> {}]
        /\ halo = [p \in Procs |-> [q \in Procs |-> 0]]
Pending(p) == \E q \in Procs : \E m \in 1..Len(flight[p][q]) : ~flight[p][q][m].read
Wait(p) == /\ pc[p] = "wait" /\ k[p] <= Rounds /\ (WaitsForSends => ~Pending(p))
           /\ pc' = [pc EXCEPT ![p] = "post"] /\ UNCHANGED <<k, sbuf, flight, rbuf, posted, arrived, received, halo>>
Post(p) == /\ pc[p] = "post"
           /\ pc' = [pc EXCEPT ![p] = "pack"]
           /\ posted' = [posted EXCEPT ![p] = IF PostsEveryRound \/ k[p] = 1 THEN Procs ELSE @]
           /\ received' = [received EXCEPT ![p] = IF ResetsReceived \/ k[p] = 1 THEN {} ELSE @]
           /\ UNCHANGED <<k, sbuf, flight, rbuf, arrived, halo>>
Pack(p) == /\ pc[p] = "pack" /\ sbuf' = [sbuf EXCEPT ![p] = k[p]] /\ pc' = [pc EXCEPT ![p] = "send"]
           /\ UNCHANGED <<k, flight, rbuf, posted, arrived, received, halo>>
Send(p) == /\ pc[p] = "send"
           /\ flight' = [flight EXCEPT ![p] = [q \in Procs |-> Append(flight[p][q], [n |-> k[p], read |-> FALSE, val |-> 0])]]
           /\ pc' = [pc EXCEPT ![p] = "recv"] /\ UNCHANGED <<k, sbuf, rbuf, posted, arrived, received, halo>>
Take(p, q) == /\ pc[p] = "recv" /\ q \in arrived[p] /\ q \notin received[p]
              /\ received' = [received EXCEPT ![p] = @ \cup {q}] /\ arrived' = [arrived EXCEPT ![p] = @ \ {q}]
              /\ halo' = [halo EXCEPT ![p][q] = rbuf[p][q]]
              /\ UNCHANGED <<pc, k, sbuf, flight, rbuf, posted>>
Done(p) == /\ pc[p] = "recv" /\ received[p] = Procs
           /\ pc' = [pc EXCEPT ![p] = IF k[p] = Rounds THEN "end" ELSE "wait"]
           /\ k' = [k EXCEPT ![p] = IF k[p] = Rounds THEN @ ELSE @ + 1]
           /\ UNCHANGED <<sbuf, flight, rbuf, posted, arrived, received, halo>>
\* the library
FirstUnread(s) == {m \in 1..Len(s) : ~s[m].read /\ \A j \in 1..(m - 1) : s[j].read}
Read(p, q) == \E m \in FirstUnread(flight[p][q]) :
              /\ flight' = [flight EXCEPT ![p][q][m].read = TRUE, ![p][q][m].val = sbuf[p]]
              /\ UNCHANGED <<pc, k, sbuf, rbuf, posted, arrived, received, halo>>
Deliver(p, q) == /\ flight[p][q] # <<>> /\ flight[p][q][1].read /\ p \in posted[q]
                 /\ rbuf' = [rbuf EXCEPT ![q][p] = flight[p][q][1].val]
                 /\ posted' = [posted EXCEPT ![q] = @ \ {p}] /\ arrived' = [arrived EXCEPT ![q] = @ \cup {p}]
                 /\ flight' = [flight EXCEPT ![p][q] = Tail(@)]
                 /\ UNCHANGED <<pc, k, sbuf, received, halo>>
Finished == \A p \in Procs : pc[p] = "end"
Next == \/ \E p \in Procs : Wait(p) \/ Post(p) \/ Pack(p) \/ Send(p) \/ Done(p) \/ \E q \in Procs : Take(p, q) \/ Read(p, q) \/ Deliver(p, q)
        \/ Finished /\ UNCHANGED vars
Fairness == \A p \in Procs : WF_vars(Wait(p)) /\ WF_vars(Post(p)) /\ WF_vars(Pack(p)) /\ WF_vars(Send(p)) /\ WF_vars(Done(p))
                             /\ \A q \in Procs : WF_vars(Take(p, q)) /\ WF_vars(Read(p, q)) /\ WF_vars(Deliver(p, q))
Spec == Init /\ [][Next]_vars /\ Fairness
\* ---- what must hold whatever the order
NoReuse == \A p, q \in Procs : \A m \in 1..Len(flight[p][q]) :
             LET f == flight[p][q][m] IN (f.read => f.val = f.n) /\ (~f.read => sbuf[p] = f.n)
RightRound == \A p \in Procs : pc[p] = "recv" => \A q \in received[p] : halo[p][q] = k[p]
AllThere == \A p \in Procs : (pc[p] = "wait" /\ k[p] > 1) \/ pc[p] = "end" => \A q \in Procs : halo[p][q] = IF pc[p] = "end" THEN Rounds ELSE k[p] - 1
OneAhead == \A p, q \in Procs : k[p] - k[q] \in {-1, 0, 1}
Nothing == Finished => \A p, q \in Procs : flight[p][q] = <<>>
Terminates == <>Finished
=============================================================================
