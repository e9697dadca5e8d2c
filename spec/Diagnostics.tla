------------------------------ MODULE Diagnostics ------------------------------
(* Derived fields. A flow with known derivatives grows with time; at every step    *)
(* that is written the curl and divergence are formed from the state of that step,  *)
(* element by element, with the spacings of the two directions, and stored.         *)
EXTENDS Integers, Sequences
CONSTANTS MaxStep, Size, Coefs, Spacings, Variant
VARIABLES s, u, v, hx, hy, der, out
vars == <<s, u, v, hx, hy, der, out>>
SmallCoefs == (0..2) \X (0..2) \X (0..1)
Cells == (0..(Size - 1)) \X (0..(Size - 1))
At(f, i, j, n) == (1 + n) * (f[1] * i * hx + f[2] * j * hy + f[3] * i * hx * j * hy)
Dx(f, i, j, n) == At(f, i + 1, j, n) - At(f, i, j, n)
Dy(f, i, j, n) == At(f, i, j + 1, n) - At(f, i, j, n)
\* both multiplied by the area of an element
Curl(i, j, n) == IF Variant = "sign" THEN hy * Dx(v, i, j, n) + hx * Dy(u, i, j, n)
                 ELSE IF Variant = "metric" THEN hx * Dx(v, i, j, n) - hy * Dy(u, i, j, n)
                 ELSE hy * Dx(v, i, j, n) - hx * Dy(u, i, j, n)
Div(i, j, n) == hy * Dx(u, i, j, n) + hx * Dy(v, i, j, n)
Formed(n) == [c \in Cells |-> <<Curl(c[1], c[2], n), Div(c[1], c[2], n)>>]
Init == s = 0 /\ u \in Coefs /\ v \in Coefs /\ hx \in Spacings /\ hy \in Spacings /\ der = [c \in Cells |-> <<0, 0>>] /\ out = <<>>
Step == s < MaxStep /\ s' = s + 1 /\ UNCHANGED <<u, v, hx, hy, der, out>>
Write == /\ Len(out) < 2
         /\ (out # <<>> => out[Len(out)][1] # s)
         /\ der' = IF Variant = "time" /\ out # <<>> THEN der ELSE Formed(s)
         /\ out' = Append(out, <<s, der'>>)
         /\ UNCHANGED <<s, u, v, hx, hy>>
Next == Step \/ Write
Spec == Init /\ [][Next]_vars
\* the derivatives of the flow itself
Zeta(i, j, n) == (1 + n) * hx * hy * ((v[1] + v[3] * j * hy) - (u[2] + u[3] * i * hx))
Delta(i, j, n) == (1 + n) * hx * hy * ((u[1] + u[3] * j * hy) + (v[2] + v[3] * i * hx))
Right == \A k \in 1..Len(out) : \A c \in Cells : out[k][2][c] = <<Zeta(c[1], c[2], out[k][1]), Delta(c[1], c[2], out[k][1])>>
\* a flow that is the gradient of a field has no curl; its mirror has no divergence
Gradient == u[2] = v[1] /\ u[3] = 0 /\ v[3] = 0
NoCurl == Gradient => \A k \in 1..Len(out) : \A c \in Cells : out[k][2][c][1] = 0
=============================================================================
