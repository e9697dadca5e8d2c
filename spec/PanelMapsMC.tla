---------------------------- MODULE PanelMapsMC ----------------------------
(* The panels fit together: every point of a lattice, every direction.          *)
EXTENDS PanelMaps, TLC, Json
CONSTANTS Ns
VARIABLES n, p, x, y
vars == <<n, p, x, y>>
Init == n \in Ns /\ p \in 0..5 /\ x \in (-n)..n /\ y \in (-n)..n
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
V == At(p, x, y, n)
RoundTrip == XNum(p, V) = x /\ YNum(p, V) = y /\ Den(p, V) = n
OnePanel == p \in Home(V) /\ ((AbsV(x) < n /\ AbsV(y) < n) => Home(V) = {p}) /\ Cardinality(Home(V)) = 1 + (IF AbsV(x) = n THEN 1 ELSE 0) + (IF AbsV(y) = n THEN 1 ELSE 0)
\* going through another panel's coordinates changes nothing
Through == \A q \in 0..5 : Den(q, V) > 0 => LET w == At(q, XNum(q, V), YNum(q, V), Den(q, V)) IN w = V
\* seen back, and back again
Mutual == (x = 0 /\ y = 0) => \A d \in 0..3 : LET q == Beyond(p, d) IN Cardinality(Back(p, q, d)) = 1 /\ \A b \in Back(p, q, d) : Beyond(q, b) = p /\ Back(q, p, b) = {d} /\ Toward(q, p) = b
Diagonal == (x = 0 /\ y = 0) => \A d \in 4..7 : \A e \in Edges(d) : LET q == Beyond(p, e) IN
   \A b \in Back(p, q, d) : b \in 4..7 /\ d \in Back(q, p, b)
\* cells: the index of a cell over the edge is that of Counterpart, and moves as Changes says
G == [cube |-> TRUE, na |-> n + 1, nb |-> n + 1, ord |-> n + 1, per |-> <<TRUE, TRUE, TRUE, TRUE>>]
OverEdge(d, depth, s) == CASE d = 0 -> <<n + 1 + depth, s>> [] d = 1 -> <<s, n + 1 + depth>> [] d = 2 -> <<-1 - depth, s>> [] OTHER -> <<s, -1 - depth>>
Cells == (x = 0 /\ y = 0) => \A d \in 0..3 : \A s \in 0..(n - 1) : \A k \in 0..(n - 1) :
   LET c == Changes(p, d)
       f(dd, ss) == Counterpart(G, p, OverEdge(d, dd, ss)[1], OverEdge(d, dd, ss)[2])
       dPar == [i \in 1..2 |-> f(k, s + 1)[i + 1] - f(k, s)[i + 1]]
       dOut == [i \in 1..2 |-> f(k + 1, s)[i + 1] - f(k, s)[i + 1]]
       parHere == IF d \in {0, 2} THEN 2 ELSE 1
       parThere == IF c[1] THEN 3 - parHere ELSE parHere
       sign == IF d \in {0, 1} THEN 1 ELSE -1
   IN /\ f(k, s)[1] = Beyond(p, d)
      /\ dPar[parThere] = (IF c[2] THEN -1 ELSE 1) /\ dPar[3 - parThere] = 0
      /\ dOut[3 - parThere] = (IF c[3] THEN -sign ELSE sign) /\ dOut[parThere] = 0
=============================================================================
