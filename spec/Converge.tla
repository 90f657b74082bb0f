------------------------------ MODULE Converge ------------------------------
(* What one application of a hierarchy for a symmetric positive definite problem
   must be: linear, symmetric, exact for the exact solution and never increasing
   the energy of the error.                                                     *)
EXTENDS Galerkin

\* functions on the degrees of freedom from what the processors recorded
Joined(own, val) ==
  TLCEval(FoldLeft(LAMBDA f, p : f @@ [g \in Range(own[p]) |->
      val[p][CHOOSE k \in 1..Len(own[p]) : own[p][k] = g]], << >>,
      [p \in 1..Len(own) |-> p]))
FSum(f, T(_)) == FoldLeft(LAMBDA x, g : x + T(g), 0, SetToSeq(DOMAIN f))
FDot(f, g) == LET t(i) == f[i] * g[i] IN FSum(f, t)
L1(f) == LET t(i) == Abs(f[i]) IN FSum(f, t)
Apply(a, f) == TLCEval([i \in DOMAIN a |-> RowDot(a[i], f)])

LinearOk(y1, y2, y12) == \A g \in DOMAIN y1 : Near(y12[g], y1[g] + 2 * y2[g], 4)
\* y in fixed point: half a unit per entry
SymmetricOk(b1, b2, y1, y2) == Near(FDot(y1, b2), FDot(b1, y2), L1(b1) + L1(b2) + 4)
FixedOk(x, y, scale) == \A g \in DOMAIN x : Near(y[g], scale * x[g], 2)

\* energy of a fixed-point error, and how far rounding may have moved it
Energy(a, e) == FDot(e, Apply(a, e))
Blur(a, e) == L1(Apply(a, e)) + FoldLeft(LAMBDA s, i : s + RowSum(a[i]), 0,
                                         SetToSeq(DOMAIN a)) \div 4 + 1
NoGrowth(a, e0, e1) == Energy(a, e1) <= Energy(a, e0) + Blur(a, e0) + Blur(a, e1)

\* equal as functions of the place
SameField(spots1, f1, spots2, f2, tol) ==
  LET at(sp, f) == TLCEval([s \in {sp[g] : g \in DOMAIN sp} |->
                     f[CHOOSE g \in DOMAIN sp : sp[g] = s]]) IN
  LET u == at(spots1, f1) IN LET v == at(spots2, f2) IN
  /\ DOMAIN u = DOMAIN v
  /\ \A s \in DOMAIN u : Near(u[s], v[s], tol)
=============================================================================
