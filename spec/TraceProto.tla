----------------------------- MODULE TraceProto -----------------------------
(* What the processes asked of the communication library, against Exchange.tla:   *)
(* a send buffer keeps its content until the library has read it (NoReuse), every  *)
(* message is received once, whole and in its own exchange (RightRound, Nothing).  *)
(* The halos themselves are decided by TraceGrid.                                  *)
EXTENDS TraceGrid
Of(log, kind) == {j \in 1..Len(log) : log[j].k = kind}
Key(r, from, to) == <<r.x, from, to, r.d>>
\* as bags: how many messages of this exchange, pair and content
Proto(e) ==
  LET L == e.log  S == Of(L, "sent")  R == Of(L, "read")  G == Of(L, "got")
      sent == {Key(L[j], L[j].me, L[j].o) : j \in S}
      read == {Key(L[j], L[j].me, L[j].o) : j \in R}
      got == {Key(L[j], L[j].o, L[j].me) : j \in G}
      nS(x) == Cardinality({j \in S : Key(L[j], L[j].me, L[j].o) = x})
  IN IF read # sent \/ Cardinality(R) # Cardinality(S) THEN <<"send buffer changed before it was read", CHOOSE x \in (read \cup sent) : x \notin read \/ x \notin sent>>
     ELSE IF got # sent \/ Cardinality(G) # Cardinality(S) THEN <<"message not received, or received by another exchange", Cardinality(G), Cardinality(S)>>
     ELSE IF \E x \in sent : nS(x) # Cardinality({j \in G : Key(L[j], L[j].o, L[j].me) = x}) THEN <<"message received twice">>
     ELSE None
NextP == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]  v == IF e.ev = "proto" THEN Proto(e) ELSE Verdict(e, cfg) IN
           /\ IF v = None THEN TRUE ELSE Bad(v)
           /\ cfg' = IF e.ev = "cfg" THEN e.c ELSE cfg
           /\ cls' = cls
SpecP == Init /\ [][NextP]_<<l, cfg, cls>>
=============================================================================
