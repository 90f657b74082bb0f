------------------------------ MODULE EigenTrace ------------------------------
(* Eigenpairs computed by the real solvers against the known spectrum.          *)
EXTENDS Eigen, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, op, ritz
tvars == <<l, op, ritz>>
Ev == Trace[l]
None == [A |-> <<>>]
TInit == l = 2 /\ Trace[1].ev = "Begin" /\ op = None /\ ritz = <<>>
TBegin == /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ l' = l + 1
          /\ op' = None /\ ritz' = <<>>
TSpectrum ==
  /\ l <= Len(Trace) /\ Ev.ev = "Spectrum" /\ l' = l + 1
  /\ IsSpectrum(Ev.A, Ev.D, Ev.Q) = TRUE
  /\ op' = [A |-> Ev.A, s |-> Ev.s, D |-> Ev.D, Q |-> Ev.Q] /\ UNCHANGED ritz

Shape(e, k) == /\ Len(e.evals) = k /\ Len(e.evecs) = k
               /\ \A i \in 1..k : Len(e.evecs[i]) = Len(op.A)
\* unit vectors, orthogonal to each other
Orthonormal(e) ==
  /\ \A i \in 1..Len(e.evecs) : UnitVec(e.evecs[i], e.vs)
  /\ \A i \in 1..Len(e.evecs), j \in 1..Len(e.evecs) :
       (i < j) => Orthogonal(e.evecs[i], e.evecs[j], e.vs, e.otol)
\* the exact eigenvalues
Exactly(e, evals) ==
  /\ Shape(e, Len(evals))
  /\ \A i \in 1..Len(evals) : /\ ValueOk(e.evals[i], evals[i], op.s, e.es, e.etol)
                              /\ PairOk(op.A, evals[i], e.evecs[i], e.vtol)
  /\ Orthonormal(e)
\* A v - theta v in units of 1 / vs, from the recorded value
Residual(e, i) ==
  LET y == MatVec(op.A, e.evecs[i]) IN
  TLCEval([r \in 1..Len(y) |-> y[r] - (op.s * e.evals[i] * e.evecs[i][r]) \div e.es])
Converged(e) ==
  \A i \in 1..Len(e.evals) : LET z == Residual(e, i) IN
    \A r \in 1..Len(z) : Abs(z[r]) <= RowWeight(op.A[r]) + 2 * op.s + op.s * e.vtol
                                      + op.s * (Abs(e.evals[i]) \div e.es + 1)

(* ---- Lanczos on an operator of its own ---- *)
Repeatable(e) == e.kept /\ e.same
Values_(e) ==
  LET w == Run(op.D, op.Q, e.x, e.want, e.per, e.cycles) IN
  IF w.ok
  THEN e.how = "ok" /\ Exactly(e, w.evals) /\ Ascending(e.evals)
  ELSE e.cycles = 1 => e.how = "throw"
\* looser tolerance: what is returned are pairs
Loose(e) ==
  /\ e.how = "ok" /\ Shape(e, e.want) /\ Ascending(e.evals)
  /\ \A i \in 1..e.want : UnitVec(e.evecs[i], e.vs)
  /\ e.count < e.maxit => Converged(e)
\* stopped after maxit steps: the residual is orthogonal to the Krylov space
RECURSIVE OrthKrylov(_, _, _, _)
OrthKrylov(A, z, y, n) ==
  n = 0 \/ (/\ Abs(Dot(z, y)) <= (1 + RowWeight(y)) * (4 + RowWeight(A[1]) + RowWeight(A[2]))
            /\ OrthKrylov(A, z, MatVec(A, y), n - 1))
Ritz(e) ==
  /\ e.how = "ok" /\ Shape(e, e.want) /\ Ascending(e.evals) /\ Orthonormal(e)
  /\ e.count = e.maxit
  /\ \A i \in 1..e.want : OrthKrylov(op.A, Residual(e, i), e.x, e.maxit)
  /\ \A i \in 1..Min2(e.want, Len(ritz)) : Near(e.evals[i], ritz[i], 2)
TLanczos ==
  /\ l <= Len(Trace) /\ Ev.ev = "Lanczos" /\ l' = l + 1 /\ UNCHANGED op
  /\ Repeatable(Ev) = TRUE
  /\ Ev.count <= Ev.cycles * Ev.maxit
  /\ (CASE Ev.mode = "values" -> Values_(Ev)
        [] Ev.mode = "loose" -> Loose(Ev)
        [] Ev.mode = "ritz" -> Ritz(Ev)
        [] Ev.mode = "wrong" -> Ev.how = "throw") = TRUE
  /\ ritz' = IF Len(Ev.evals) > Len(ritz) THEN Ev.evals ELSE ritz

(* ---- the deflated operator ---- *)
\* the batches up to k span the columns Out(k): every vector is a combination of
\* columns, given by its coefficients
CombinationOf(c) == MatVec(op.Q, c)
Out(e, k) == UNION {{j \in 1..Len(op.D) : \E c \in Range(e.batches[b].coef) : c[j] # 0} : b \in 1..k}
Close12(v, w, vs, tol) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Near(12 * v[i], vs * w[i], 12 * tol)
DeflatedOk(e) ==
  /\ e.how = "ok" /\ e.m = Len(op.A) /\ e.n = Len(op.A)
  /\ Len(e.projected) = Len(e.batches) /\ Len(e.applied) = Len(e.batches)
  /\ \A k \in 1..Len(e.batches) : LET b == e.batches[k] IN
       /\ \A i \in 1..Len(b.vecs) : b.vecs[i] = CombinationOf(b.coef[i])
       /\ Close12(e.projected[k], Project12(op.Q, Out(e, k), b.x), e.vs, 1)
       /\ LET p == Project12(op.Q, Out(e, k), MatVec(op.A, b.x)) IN
          Close12([i \in 1..Len(p) |-> op.s * e.applied[k][i]], p, e.vs, op.s)
TDeflated ==
  /\ l <= Len(Trace) /\ Ev.ev = "Deflated" /\ l' = l + 1 /\ UNCHANGED <<op, ritz>>
  /\ DeflatedOk(Ev) = TRUE

(* ---- the eigenpairs of an agglomerate ---- *)
Fixed(e) == Range(e.fixed)
AgreesWithInput(e) ==
  /\ e.diag = [i \in 1..Len(op.A) |-> op.A[i][i]]
  /\ e.ids = [i \in 1..Len(op.A) |-> i - 1]
  /\ \A i \in 1..Len(e.im) : e.im[i] = 0
VanishAt(e) == \A i \in 1..Len(e.evecs) : \A f \in Fixed(e) : Abs(e.evecs[i][f]) <= 1
\* the eigenvalue of A next to a recorded one
Nearest(e, i) == LET c == {d \in Range(op.D) : ValueOk(e.evals[i], d, op.s, e.es, e.etol)} IN
                 IF c = {} THEN -1 ELSE CHOOSE d \in c : TRUE
Nearests(e) == TLCEval([i \in 1..Len(e.evals) |-> Nearest(e, i)])
Simple(bag) == \A d \in DOMAIN bag : bag[d] = 1
LocalOk(e) ==
  LET bag == FreeBag(op.D, op.Q, Fixed(e)) IN
  LET count == Len(FreeValues(op.D, op.Q, Fixed(e))) IN
  LET reach == ReachedFree(op.D, op.Q, Fixed(e), e.want, e.per, e.cycles) IN
  /\ (e.how = "ok" /\ (e.solver = "arpack" => e.want <= count)) =>
       /\ AgreesWithInput(e) /\ Ascending(e.evals)
       /\ Len(e.im) = e.want /\ Exactly(e, Nearests(e)) /\ Len(e.evals) = e.want
       /\ (e.solver \notin {"anasazi-free", "anasazi-free-guess"}) => VanishAt(e)
  /\ CASE e.solver = "lapack" ->
            IF e.want <= count
            THEN e.how = "ok" /\ Nearests(e) = SmallestFree(op.D, op.Q, Fixed(e), e.want)
            ELSE e.how = "throw"
       [] e.solver = "anasazi" ->
            /\ e.how = "ok" => e.want <= count /\ Nearests(e) = SmallestFree(op.D, op.Q, Fixed(e), e.want)
            /\ (Simple(bag) /\ 3 * e.want <= count) => e.how = "ok"
       \* started from another agglomerate's eigenvectors: pairs, if it converges
       [] e.solver \in {"anasazi-guess", "anasazi-free-guess"} -> TRUE
       \* random vectors to start from
       [] e.solver = "anasazi-free" ->
            (Simple(BagOf(op.D)) /\ 3 * e.want <= count) => e.how = "ok"
       [] e.solver = "arpack" ->
            /\ (e.how = "ok" /\ e.want <= count) => MayMissCopies(Nearests(e), bag)
            /\ e.want <= Cardinality(DOMAIN bag) => e.how = "ok"
       [] e.solver = "lanczos" ->
            IF reach.ok THEN e.how = "ok" /\ Nearests(e) = reach.evals
            ELSE e.cycles = 1 => e.how = "throw"
TLocal ==
  /\ l <= Len(Trace) /\ Ev.ev = "Local" /\ l' = l + 1 /\ UNCHANGED <<op, ritz>>
  /\ LocalOk(Ev) = TRUE

TSpec == TInit /\ [][TBegin \/ TSpectrum \/ TLanczos \/ TDeflated \/ TLocal]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
