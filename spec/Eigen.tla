-------------------------------- MODULE Eigen ---------------------------------
(* Eigenpairs of an operator A / s with integer A whose spectrum is known: D[j] / s
   belongs to column j of the integer matrix Q, whose columns are orthogonal.     *)
EXTENDS LinAlg, SequencesExt, FiniteSetsExt

ColumnOf(m, j) == TLCEval([i \in 1..Len(m) |-> m[i][j]])
IsSpectrum(A, D, Q) ==
  /\ \A j \in 1..Len(D) : MatVec(A, ColumnOf(Q, j)) = VScale(D[j], ColumnOf(Q, j))
  /\ \A i \in 1..Len(D), j \in 1..Len(D) : i <= j =>
        (i = j) = (Dot(ColumnOf(Q, i), ColumnOf(Q, j)) # 0)

\* bags of eigenvalues are functions eigenvalue -> multiplicity >= 1
Less(a, b) == a < b
Sorted(s) == SortSeq(s, Less)
BagOf(s) == [e \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = e})]
Values(bag) == SetToSortSeq(DOMAIN bag, Less)
Minus(bag, es) ==
  LET left(e) == bag[e] - (IF e \in es THEN 1 ELSE 0) IN
  [e \in {f \in DOMAIN bag : left(f) > 0} |-> left(e)]
\* each eigenvalue once, if the starting vector has a part in its eigenspace
ReachedOnce(D, Q, x) ==
  TLCEval([e \in {D[j] : j \in {k \in 1..Len(D) : Dot(ColumnOf(Q, k), x) # 0}} |-> 1])
\* after a random change of the nonzero entries of the starting vector: everything
\* in the coordinates it can use
Support(x) == {i \in 1..Len(x) : x[i] # 0}
Inside(q, x) == \A i \in 1..Len(q) : q[i] # 0 => i \in Support(x)
Outside(q, x) == \A i \in Support(x) : q[i] = 0
Decoupled(Q, x) == \A j \in 1..Len(Q) : Inside(ColumnOf(Q, j), x) \/ Outside(ColumnOf(Q, j), x)
ReachedAfter(D, Q, x) ==
  LET u == SelectSeq([j \in 1..Len(D) |-> j], LAMBDA j : Inside(ColumnOf(Q, j), x)) IN
  TLCEval(BagOf([k \in 1..Len(u) |-> D[u[k]]]))

(* ---------------------- Lanczos cycles with deflation ---------------------- *)
\* every cycle finds the per smallest different eigenvalues left, each once
RECURSIVE Rounds(_, _, _, _)
Rounds(first, bag, per, cycles) ==
  IF cycles = 0 THEN [ok |-> TRUE, found |-> <<>>]
  ELSE LET v == Values(first) IN
       IF Len(v) < per THEN [ok |-> FALSE, found |-> <<>>]
       ELSE LET now == SubSeq(v, 1, per) IN
            LET left == Minus(bag, Range(now)) IN
            LET rest == Rounds(left, left, per, cycles - 1) IN
            [ok |-> rest.ok, found |-> now \o rest.found]
\* the eigenvalues of a run: the smallest of what all cycles found
Run(D, Q, x, want, per, cycles) ==
  LET r == Rounds(ReachedOnce(D, Q, x), ReachedAfter(D, Q, x), per, cycles) IN
  IF r.ok /\ Len(r.found) >= want
  THEN [ok |-> TRUE, evals |-> SubSeq(Sorted(r.found), 1, want)]
  ELSE [ok |-> FALSE, evals |-> <<>>]

(* ------------------------------- deflation --------------------------------- *)
\* the vectors to deflate span the columns `out` of Q; what is left of x are its
\* other parts. Twelve times it, as the columns have 1 to 4 entries of equal size.
Norm2(q) == Dot(q, q)
Project12(Q, out, x) ==
  LET n == Len(Q) IN
  LET part(j) == IF j \in out THEN ZeroVec(n)
                 ELSE LET q == ColumnOf(Q, j) IN VScale((12 \div Norm2(q)) * Dot(q, x), q) IN
  TLCEval(FoldLeft(VAdd, ZeroVec(n), [j \in 1..n |-> part(j)]))

(* -------------------- agglomerates with constrained dofs ------------------- *)
\* constrained dofs are decoupled from the others
IsOutside(q, fixed) == \A i \in fixed : q[i] = 0
FreeColumns(Q, fixed) == SelectSeq([j \in 1..Len(Q) |-> j], LAMBDA j : IsOutside(ColumnOf(Q, j), fixed))
FreeValues(D, Q, fixed) ==
  LET u == FreeColumns(Q, fixed) IN TLCEval(Sorted([k \in 1..Len(u) |-> D[u[k]]]))
FreeBag(D, Q, fixed) == TLCEval(BagOf(FreeValues(D, Q, fixed)))
\* solvers that see all copies of an eigenvalue
SmallestFree(D, Q, fixed, want) == SubSeq(FreeValues(D, Q, fixed), 1, want)
\* Krylov solvers that start from one vector with a part everywhere
ReachedFree(D, Q, fixed, want, per, cycles) ==
  LET bag == FreeBag(D, Q, fixed) IN
  LET r == Rounds([e \in DOMAIN bag |-> 1], bag, per, cycles) IN
  IF r.ok /\ Len(r.found) >= want
  THEN [ok |-> TRUE, evals |-> SubSeq(Sorted(r.found), 1, want)]
  ELSE [ok |-> FALSE, evals |-> <<>>]
\* copies may be missing, eigenvalues below the largest may not
MayMissCopies(evals, bag) ==
  /\ \A e \in Range(evals) : e \in DOMAIN bag /\ BagOf(evals)[e] <= bag[e]
  /\ \A e \in DOMAIN bag : (\E f \in Range(evals) : e < f) => e \in Range(evals)

(* --------------------------- recorded eigenpairs --------------------------- *)
Ascending(e) == \A i \in 1..(Len(e) - 1) : e[i] <= e[i + 1]
\* vectors in units of 1 / vs
UnitVec(v, vs) == Near(Dot(v, v), vs * vs, 2 * vs * (1 + Len(v) \div 4))
Orthogonal(u, v, vs, tol) == Abs(Dot(u, v)) <= 2 * Len(u) * vs + tol
\* A v = (s theta) v up to the rounding of the entries of v and a residual of tol
RowWeight(r) == LET t(i) == Abs(r[i]) IN SumTo(t, Len(r))
PairOk(A, lam, v, tol) ==
  LET y == MatVec(A, v) IN
  \A i \in 1..Len(v) : Near(y[i], lam * v[i], RowWeight(A[i]) + Abs(lam) + 1 + tol)
\* values in units of 1 / es of A / s
ValueOk(e, lam, s, es, tol) == Near(e * s, lam * es, s + s * tol)
=============================================================================
