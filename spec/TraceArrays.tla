----------------------------- MODULE TraceArrays -----------------------------
(* A recorded history of the real arrays against Arrays.tla.                    *)
(* Every event carries the operation it is the outcome of.                      *)
EXTENDS Arrays, Json, IOUtils, TLC
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, sync
Bad(what) == PrintT(<<"BAD", l, what>>)
Wrong(e, x) ==
  IF e.live # Cardinality(Live(x)) THEN <<"blocks", Cardinality(Live(x))>>
  ELSE IF e.badfree # 0 THEN <<"wrongly freed">>
  ELSE IF \E i \in A : e.a[i].att # Attached(x, i) THEN <<"attached", [i \in A |-> Attached(x, i)]>>
  ELSE IF \E i \in A : e.a[i].sz # x.a[i].sz \/ e.a[i].cells # Cells(x.w, x.a[i].sz) THEN <<"extents", [i \in A |-> x.a[i].sz]>>
  ELSE IF \E i \in A : ~e.a[i].sub THEN <<"subscripts">>
  ELSE IF x.d # 0 /\ \E i \in A : e.a[i].ty # x.a[i].ty \/ e.a[i].lo # x.a[i].lo THEN <<"kind", [i \in A |-> <<x.a[i].ty, x.a[i].lo>>]>>
  ELSE IF \E i \in A : Attached(x, i) /\ ~Eq(e.a[i].data, Read(x, i)) THEN <<"content", [i \in A |-> IF Attached(x, i) THEN Read(x, i) ELSE <<>>]>>
  ELSE IF \E k \in C : e.c[k].att # (x.c[k].blk # 0) \/ e.c[k].cells # Total(x, x.c[k].ch) THEN <<"container">>
  ELSE IF \E b \in Ext : ~Eq(e.x[b].m, x.m[b]) THEN <<"outside", [b \in Ext |-> x.m[b]]>>
  ELSE <<>>
Verdict(e, x) ==
  CASE e.ev = "died" -> <<"died", e.why>>
    [] e.ev = "begin" -> Wrong(e, x)
    [] e.ev = "close" -> IF e.live # 0 THEN <<"left behind", e.live>> ELSE IF e.badfree # 0 THEN <<"wrongly freed">> ELSE <<>>
    [] OTHER -> IF e.exc # Refused(s, e.e) THEN <<"refused", Refused(s, e.e)>> ELSE Wrong(e, x)
Init == l = 1 /\ s = Fresh(1, 1) /\ sync = TRUE
Next == /\ l <= Len(Log) /\ l' = l + 1
        /\ LET e == Log[l]
               ok == sync \/ e.ev \in {"begin", "died"}
               x == IF e.ev = "begin" THEN Fresh(e.d, e.w) ELSE IF e.ev = "op" /\ ok THEN Do(s, e.e) ELSE s
               v == IF ok THEN Verdict(e, x) ELSE <<>>
           IN s' = x /\ sync' = (ok /\ v = <<>>) /\ (v = <<>> \/ Bad(v))
Spec == Init /\ [][Next]_<<l, s, sync>>
Consumed == PrintT(<<"DONE", TLCGet("stats").diameter - 1>>)
=============================================================================
