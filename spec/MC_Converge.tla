----------------------------- MODULE MC_Converge -----------------------------
EXTENDS Converge
(* Why it holds: the cycle for two unknowns with exact fractions.  The error e
   is kept as e/den; every step multiplies it out.                             *)
VARIABLES A, P, e, den, first, at, kind, ns
vars == <<A, P, e, den, first, at, kind, ns>>
Mul2(m, x) == <<m[1][1] * x[1] + m[1][2] * x[2], m[2][1] * x[1] + m[2][2] * x[2]>>
En(x) == x[1] * Mul2(A, x)[1] + x[2] * Mul2(A, x)[2]
Start(x) == e = x /\ den = 1 /\ first = x /\ at = "pre"
SetE(x, d) == e' = x /\ den' = den * d
Keep == UNCHANGED <<A, P, first, kind, ns>>
\* one sweep on the error
Swept(x) ==
  LET r == Mul2(A, x) IN
  LET a == A[1][1] IN LET c == A[2][2] IN
  IF kind = "jacobi" THEN <<<<a * c * x[1] - c * r[1], a * c * x[2] - a * r[2]>>, a * c>>
  ELSE \* Gauss-Seidel: the first unknown, then the second with the new first
    LET y1 == a * x[1] - r[1] IN      \* over a
    LET s == A[2][1] * y1 + c * a * x[2] IN  \* second residual over a
    <<<<c * y1, c * a * x[2] - s>>, a * c>>
Sweep ==
  /\ at \in {"pre", "post"}
  /\ at' = (IF at = "pre" THEN "correct" ELSE "end")
  /\ Keep
  /\ IF ns = 0 THEN UNCHANGED <<e, den>>
     ELSE LET w == Swept(e) IN SetE(w[1], w[2])
Correct ==
  /\ at = "correct" /\ at' = "post" /\ Keep
  /\ LET q == P[1] * Mul2(A, P)[1] + P[2] * Mul2(A, P)[2] IN
     LET r == P[1] * Mul2(A, e)[1] + P[2] * Mul2(A, e)[2] IN
     SetE(<<q * e[1] - P[1] * r, q * e[2] - P[2] * r>>, q)
Next2 == Sweep \/ Correct
NeverGrows == En(e) <= den * den * En(first)
\* after the correction the error has no part in the coarse space
Projected == at = "post" => P[1] * Mul2(A, e)[1] + P[2] * Mul2(A, e)[2] = 0
-----------------------------------------------------------------------------
\* Every diagonally dominant 2 x 2 M-matrix with small entries, every coarse
\* space and every error.
Mats == {<<<<a, -b>>, <<-b, c>>>> : a \in 1..3, c \in 1..3, b \in 0..2}
MCInit ==
  /\ A \in {m \in Mats : m[1][1] + m[1][2] >= 0 /\ m[2][2] + m[1][2] >= 0
                          /\ m[1][1] * m[2][2] > m[1][2] * m[1][2]}
  /\ P \in {<<p, q>> : p \in 0..2, q \in -1..2} \ {<<0, 0>>}
  /\ kind \in {"jacobi", "gs"} /\ ns \in {0, 1}
  /\ \E x \in {<<u, v>> : u \in -2..2, v \in 0..2} : Start(x)
MCSpec == MCInit /\ [][Next2]_vars
=============================================================================
