------------------------------ MODULE ColumnsEnum ------------------------------
(* Which columns, stretchings and spacings are built.                            *)
EXTENDS Integers, Json, TLC
CONSTANTS Orders, MaxFe, FvOrders, MaxFv, Samples, Deltas, Zeros
VARIABLE s
S == {"uniform", "cubic", "pwlinear"}
Col(d, g, o, f, t) == [k |-> "column", disc |-> d, stag |-> g, ord |-> o, fe |-> f, stretch |-> t, delta |-> 0, zero |-> 0, from |-> 0, n |-> 0]
\* order 1 on interfaces has no elements
Init == s \in {Col("FE", g, o, f, t) : g \in {"LEV", "LOR", "CPH"}, o \in Orders, f \in 1..MaxFe, t \in S} \cup {Col("FE", "INT", o, f, t) : o \in Orders \ {1}, f \in 1..MaxFe, t \in S}
           \cup {Col("FV", g, o, f, t) : g \in {"LEV", "LOR", "CPH"}, o \in FvOrders, f \in 1..MaxFv, t \in S}
           \cup {[Col("", "", 0, 0, t) EXCEPT !.k = "stretch", !.n = m] : t \in S, m \in Samples}
           \cup {[Col("", "", o, 0, t) EXCEPT !.k = "spacing", !.delta = d, !.zero = z - 500, !.from = -9, !.n = 24] : t \in {"uniform", "lobatto", "repeated", "mixed"}, o \in 2..8, d \in Deltas, z \in Zeros}
           \cup {[Col("", "", 1, 0, t) EXCEPT !.k = "spacing", !.delta = d, !.zero = z - 500, !.from = -5, !.n = 13] : t \in {"uniform", "mixed"}, d \in Deltas, z \in Zeros}
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT(ToJson(s))
=============================================================================
