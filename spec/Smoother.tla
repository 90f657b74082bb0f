------------------------------ MODULE Smoother ------------------------------
(* One smoothing step x + B (b - A x), B being one sweep of a classical method on
   the rows of each processor, and the solver of the coarsest level.

   Matrices are functions row -> (column -> value) as in OpAlg; vectors are in
   units of 1/scale.  Divisions have to come out even: the problems are chosen so. *)
EXTENDS OpAlg

Even(u, d) ==
  LET q == IF d < 0 THEN -(u \div (-d)) ELSE u \div d IN
  IF d # 0 /\ q * d = u THEN q ELSE Assert(FALSE, <<"not a problem of this kind", u, d>>)
\* the part of a row that counts, given what is known of the result
Known(row, y, rows) == LET t(j) == row[j] * y[j] IN SumOver(DOMAIN row \cap rows, t)
Visit(a, r, y, i, rows) ==
  [y EXCEPT ![i] = Even(r[i] - Known(a[i], y, rows \ {i}), a[i][i])]
Sweep(a, r, y, order) ==
  LET rows == Range(order) IN
  FoldLeft(LAMBDA z, i : Visit(a, r, z, i, rows), y, order)
Zero(order) == [i \in Range(order) |-> 0]

Jacobi(a, r, order) == [i \in Range(order) |-> Even(r[i], a[i][i])]
GaussSeidel(a, r, order) == Sweep(a, r, Zero(order), order)
SymmetricGS(a, r, order) == Sweep(a, r, GaussSeidel(a, r, order), Reverse(order))

(* incomplete factors without fill: row by row, only where the matrix has entries *)
Eliminate(row, k, u) == \* take row k of the factors off a later row
  IF k \notin DOMAIN row THEN row
  ELSE LET f == Even(row[k], u[k][k]) IN
       [j \in DOMAIN row |->
          IF j = k THEN f
          ELSE IF j > k /\ j \in DOMAIN u[k] THEN row[j] - f * u[k][j] ELSE row[j]]
LocalRow(a, i, rows) == [j \in DOMAIN a[i] \cap rows |-> a[i][j]]
Factors(a, order) ==
  LET rows == Range(order) IN
  LET row(u, i) ==
        FoldLeft(LAMBDA w, k : IF k < i THEN Eliminate(w, k, u) ELSE w,
                 LocalRow(a, i, rows), order) IN
  TLCEval(FoldLeft(LAMBDA u, i : u @@ (i :> row(u, i)), << >>, order))
Ilu(a, r, order) ==
  LET f == Factors(a, order) IN
  LET down(z, i) == LET t(j) == f[i][j] * z[j] IN
        [z EXCEPT ![i] = r[i] - SumOver({j \in DOMAIN f[i] : j < i}, t)] IN
  LET z == FoldLeft(down, Zero(order), order) IN
  LET up(y, i) == LET t(j) == f[i][j] * y[j] IN
        [y EXCEPT ![i] = Even(z[i] - SumOver({j \in DOMAIN f[i] : j > i}, t), f[i][i])] IN
  FoldLeft(up, Zero(order), Reverse(order))

\* what is added to x: every processor works on its own rows
Correction(kind, a, r, own) ==
  LET part(order) ==
        CASE kind = "jacobi" -> Jacobi(a, r, order)
          [] kind = "gauss-seidel" -> GaussSeidel(a, r, order)
          [] kind = "symmetric gauss-seidel" -> SymmetricGS(a, r, order)
          [] kind = "ilu" -> Ilu(a, r, order) IN
  FoldLeft(LAMBDA f, order : f @@ part(order), << >>, own)
\* one step in units of 1/scale from integers b and x
Step(kind, a, b, x, own, scale) ==
  LET ax == MatVec(a, x) IN
  LET c == Correction(kind, a, [i \in DOMAIN a |-> scale * (b[i] - ax[i])], own) IN
  [i \in DOMAIN a |-> scale * x[i] + c[i]]

(* Chebyshev: the operator has n / 2 equal blocks d [[1, 1/2], [1/2, 1]], so that
   the matrix divided by its diagonal has the eigenvalues 1/2 and 3/2.  The
   largest is estimated by the Rayleigh quotient at the vector 0, 1, ... less its
   mean (which is what one step of conjugate gradients gives) and taken times 1.2;
   range > 1 gives the smallest as a fraction of it.  Numbers in units of 2^-11.  *)
One == 2048
Mulf(x, y) == (x * y + One \div 2) \div One
Divf(x, y) == (x * One + y \div 2) \div y
Rayleigh(n) ==
  LET t(k) == (4 * k + 2 - n) * (4 * k + 2 - n) IN
  LET s == SumOver(0..((n \div 2) - 1), t) IN
  ((3 * s + n \div 2) * One) \div (2 * s + n)
ChebMax(n) == (6 * Rayleigh(n)) \div 5
ChebMin(range, n) == IF range > 1 THEN ChebMax(n) \div range ELSE Rayleigh(n)
Theta(range, n) == (ChebMax(n) + ChebMin(range, n)) \div 2
Delta(range, n) == (ChebMax(n) - ChebMin(range, n)) \div 2
\* the value at eigenvalue ev of the polynomial that B is, times D^-1
RECURSIVE ChebAt(_, _, _, _, _, _, _)
ChebAt(k, th, de, ev, new, old, rho) ==
  IF k = 0 THEN new
  ELSE LET sigma == Divf(th, de) IN
       LET next == Divf(One, 2 * sigma - rho) IN
       ChebAt(k - 1, th, de, ev,
              new + Mulf(Mulf(next, rho), new - old)
                  + Mulf(Divf(2 * next, de), One - Mulf(ev, new)),
              new, next)
Cheb(degree, range, ev, n) ==
  LET th == Theta(range, n) IN LET de == Delta(range, n) IN
  ChebAt(degree - 1, th, de, ev, Divf(One, th), 0, Divf(de, th))
=============================================================================
