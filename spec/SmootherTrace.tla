---------------------------- MODULE SmootherTrace ----------------------------
(* Smoothing steps and coarse solves by the real library, all processors.

   Begin: kind   jacobi, gauss-seidel, symmetric gauss-seidel, ilu, chebyshev,
                 direct, ml
          degree, range   of the Chebyshev polynomial
          wants  solver: the solution of every system in turn                  *)
EXTENDS Smoother, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, sys, turn, memo
vars == <<l, conf, sys, turn, memo>>
Ev == Trace[l]
Procs(e) == 1..Len(e.ranks)
RowFn(row) ==
  TLCEval([j \in {row[n][1] : n \in 1..Len(row)} |->
             LET n == CHOOSE n \in 1..Len(row) : row[n][1] = j IN row[n][2]])
Joined(e, val) ==
  TLCEval(FoldLeft(LAMBDA f, p : f @@ [g \in Range(sys.own[p]) |->
     val[p][CHOOSE k \in 1..Len(sys.own[p]) : sys.own[p][k] = g]], << >>,
     [p \in Procs(e) |-> p]))
Field(e, f) == [p \in Procs(e) |-> e.ranks[p][f]]
Of(e, f) == Joined(e, Field(e, f))
Scale == 16384

TInit ==
  /\ l = 2 /\ Trace[1].ev = "Begin" /\ conf = Trace[1] /\ sys = <<>> /\ turn = 0
  /\ memo = <<>>
TBegin ==
  /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ conf' = Ev /\ l' = l + 1
  /\ sys' = <<>> /\ turn' = 0 /\ memo' = <<>>
TSystem ==
  /\ l <= Len(Trace) /\ Ev.ev = "System" /\ l' = l + 1 /\ UNCHANGED <<conf, turn, memo>>
  /\ sys' = [own |-> Field(Ev, "own"),
             a |-> TLCEval(FoldLeft(LAMBDA f, p :
               LET m == Ev.ranks[p].A IN
               f @@ [i \in Range(m.ids) |->
                 RowFn(m.rows[CHOOSE k \in 1..Len(m.ids) : m.ids[k] = i])], << >>,
               [p \in Procs(Ev) |-> p]))]
TBuilt ==
  /\ l <= Len(Trace) /\ Ev.ev = "Built" /\ l' = l + 1
  /\ UNCHANGED <<conf, sys, turn, memo>>
  /\ (\A p \in Procs(Ev) : Ev.ranks[p].how = "ok") = TRUE

ChebOk(b, x, y) ==
  LET ax == MatVec(sys.a, x) IN LET n == Cardinality(DOMAIN b) IN
  LET r == [i \in DOMAIN b |-> b[i] - ax[i]] IN
  LET low == Cheb(conf.degree, conf.range, One \div 2, n) IN
  LET high == Cheb(conf.degree, conf.range, (3 * One) \div 2, n) IN
  \A i \in DOMAIN b :
    LET j == IF i = 2 * (i \div 2) THEN i + 1 ELSE i - 1 IN
    LET got == 2 * sys.a[i][i] * (y[i] - One * x[i]) IN
    LET want == high * (r[i] + r[j]) + low * (r[i] - r[j]) IN
    Abs(got - want) <= 24 * (Abs(r[i]) + Abs(r[j])) + 2 * sys.a[i][i]
\* one classical step on a matrix or a solve
StepOk(e) ==
  LET b == Of(e, "b") IN LET x == Of(e, "x") IN LET y == Of(e, "y") IN
  /\ \A p \in Procs(e) : e.ranks[p].how = "ok" /\ e.ranks[p].same
  /\ CASE conf.kind = "chebyshev" -> ChebOk(b, x, y)
       [] conf.kind = "direct" ->
            LET want == conf.wants[turn + 1] IN
            LET f == [i \in DOMAIN b |-> want[i + 1]] IN
            \* the problem is the one whose solution is known
            /\ Assert(MatVec(sys.a, f) = b, "not the system of that solution")
            /\ \A i \in DOMAIN b : Abs(y[i] - Scale * f[i]) <= 1
       [] conf.kind = "ml jacobi" -> \* one level, one half Jacobi sweep
            \A i \in DOMAIN b : Abs(2 * sys.a[i][i] * y[i] - Scale * b[i])
                                  <= 2 * Abs(sys.a[i][i])
       [] OTHER ->
            LET want == Step(conf.kind, sys.a, b, x, sys.own, Scale) IN
            \A i \in DOMAIN b : y[i] = want[i]
TStep ==
  /\ l <= Len(Trace) /\ Ev.ev = "Step" /\ l' = l + 1 /\ UNCHANGED <<conf, sys, memo>>
  /\ StepOk(Ev) = TRUE
  /\ turn' = turn + 1
TSpec == TInit /\ [][TBegin \/ TSystem \/ TBuilt \/ TStep]_vars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
