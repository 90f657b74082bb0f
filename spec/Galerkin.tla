------------------------------ MODULE Galerkin ------------------------------
(* Distributed sparse matrices in fixed-point arithmetic and what a two-level
   hierarchy must consist of.

   What a processor holds of a matrix is a record
     m, n   the global size          ids, dom  the rows and columns it owns
     rows   for each of ids, a sequence of <<column, value>> (zeros left out)   *)
EXTENDS LinAlg, SequencesExt

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Ids(ms) == UNION {Range(ms[p].ids) : p \in 1..Len(ms)}

\* every row and every column has exactly one owner
Partition(parts, n) ==
  /\ SumSeq([p \in 1..Len(parts) |-> Len(parts[p])]) = n
  /\ UNION {Range(parts[p]) : p \in 1..Len(parts)} = 0..(n - 1)
WellDistributed(ms) ==
  /\ \A p \in 1..Len(ms) :
       ms[p].m = ms[1].m /\ ms[p].n = ms[1].n /\ Len(ms[p].rows) = Len(ms[p].ids)
  /\ Partition([p \in 1..Len(ms) |-> ms[p].ids], ms[1].m)
  /\ Partition([p \in 1..Len(ms) |-> ms[p].dom], ms[1].n)
SameDistribution(ms, parts) == \A p \in 1..Len(ms) : ms[p].ids = parts[p]

\* the matrix as a function: row -> (column -> value)
RowFn(row) ==
  FoldLeft(LAMBDA f, x : IF x[1] \in DOMAIN f THEN [f EXCEPT ![x[1]] = @ + x[2]]
                         ELSE (x[1] :> x[2]) @@ f, << >>, row)
RowsOf(mp) ==
  FoldLeftDomain(LAMBDA f, k : (mp.ids[k] :> RowFn(mp.rows[k])) @@ f, << >>, mp.ids)
Fn(ms) == TLCEval(FoldLeft(LAMBDA f, mp : f @@ RowsOf(mp), << >>, ms))
At(f, i, j) == IF j \in DOMAIN f[i] THEN f[i][j] ELSE 0

\* sum over the columns j of row f of f[j] * g[j]
RowDot(f, g) ==
  LET js == SetToSeq(DOMAIN f \cap DOMAIN g) IN
  FoldLeft(LAMBDA a, j : a + f[j] * g[j], 0, js)
RowSum(f) == FoldLeft(LAMBDA a, j : a + Abs(f[j]), 0, SetToSeq(DOMAIN f))

(* ap = a r^T: a in integers, r and ap in units of 1/scale.  Rounding r to its
   unit moves the sum by at most half the row sum of a; extra allows for what an
   iterative eigensolver leaves.                                               *)
ProductOk(a, r, ap, extra) ==
  \A i \in DOMAIN a : LET tol == RowSum(a[i]) + 2 + extra IN
    \A k \in DOMAIN r :
      IF DOMAIN a[i] \cap DOMAIN r[k] = {} THEN Near(At(ap, i, k), 0, tol)
      ELSE Near(At(ap, i, k), RowDot(a[i], r[k]), tol)

(* x * y / 2^20 without leaving 32 bits: both in units of 2^-20                 *)
Half == 512
High(x) == (x + Half) \div 1024
Low(x) == x - 1024 * High(x)
FixDot(f, g) == \* g: row -> value, given as a function on the common columns
  LET js == SetToSeq(DOMAIN f \cap DOMAIN g) IN
  LET hh == FoldLeft(LAMBDA a, j : a + High(f[j]) * High(g[j]), 0, js) IN
  LET hl == FoldLeft(LAMBDA a, j : a + High(f[j]) * Low(g[j]) + Low(f[j]) * High(g[j]),
                     0, js) IN
  hh + ((hl + Half) \div 1024)
Column(ap, k) == TLCEval([i \in {i \in DOMAIN ap : k \in DOMAIN ap[i]} |-> ap[i][k]])
\* the coarse operator r (ap): everything in units of 2^-20
CoarseOk(r, ap, ac) ==
  LET cols == TLCEval([k \in DOMAIN r |-> Column(ap, k)]) IN
  LET sums == TLCEval([k \in DOMAIN r |-> High(RowSum(cols[k])) \div 1024]) IN
  \A i \in DOMAIN r : LET own == High(RowSum(r[i])) \div 1024 IN
    \A k \in DOMAIN r :
      Near(At(ac, i, k), FixDot(r[i], cols[k]), own + sums[k] + Cardinality(DOMAIN r[i]) + 4)

(* Restriction weights.  cells: sequence of [agg, dofs, c] of one processor; the
   diagonal a cell adds to each of its degrees of freedom is c * dim + mass.    *)
OwnDiag(cells, a, dim, mass) ==
  LET mine == SelectSeq(cells, LAMBDA c : c.agg = a) IN
  [g \in UNION {Range(mine[k].dofs) : k \in 1..Len(mine)} |->
     SumSeq([k \in 1..Len(mine) |->
       IF g \in Range(mine[k].dofs) THEN mine[k].c * dim + mass ELSE 0])]
AllDiag(cellss, dim, mass) ==
  LET all == FoldLeft(LAMBDA x, y : x \o y, <<>>, cellss) IN
  LET touch(g) == SelectSeq(all, LAMBDA c : g \in Range(c.dofs)) IN
  [g \in UNION {Range(all[k].dofs) : k \in 1..Len(all)} |->
     LET t == touch(g) IN SumSeq([k \in 1..Len(t) |-> t[k].c * dim + mass])]
\* row of an agglomerate: r/e = own/all wherever e is not zero, and r is nothing
\* outside of the agglomerate
WeightsOk(r, e, own, all, tol) ==
  /\ DOMAIN r \subseteq DOMAIN own /\ DOMAIN e \subseteq DOMAIN own
  /\ \A g \in DOMAIN own :
       LET rv == IF g \in DOMAIN r THEN r[g] ELSE 0 IN
       LET ev == IF g \in DOMAIN e THEN e[g] ELSE 0 IN
       Near(rv * all[g], ev * own[g], tol * all[g])
=============================================================================
