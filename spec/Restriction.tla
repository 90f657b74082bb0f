----------------------------- MODULE Restriction -----------------------------
(* The restriction matrix: what every processor contributes, where it goes, and
   what the matrix must be.

   A processor's contribution is a sequence of agglomerates, each a record
     dofs   the global numbers of its degrees of freedom (no two the same)
     diag   its own diagonal there
     eig    its eigenvectors, each a sequence as long as dofs
   gd is the global diagonal, a function on the degrees of freedom.           *)
EXTENDS LinAlg, SequencesExt

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
NRowsOf(c) == Sum([a \in 1..Len(c) |-> Len(c[a].eig)])
\* rows of the processors before r (processors are 1..P here)
Before(cs, r) == Sum([q \in 1..(r - 1) |-> NRowsOf(cs[q])])
\* the agglomerate and eigenvector that row k (from 1) of a contribution is for
RECURSIVE Locate(_, _, _)
Locate(c, a, k) ==
  IF k <= Len(c[a].eig) THEN <<a, k>> ELSE Locate(c, a + 1, k - Len(c[a].eig))

(* entries are multiples of 1/scale; only those that are not zero count         *)
Weighted(agg, k, gd, scale) ==
  {<<agg.dofs[j], (scale * agg.diag[j] * agg.eig[k][j]) \div gd[agg.dofs[j]]>> :
     j \in {i \in 1..Len(agg.dofs) : agg.diag[i] * agg.eig[k][i] # 0}}
Plain(agg, k, gd, scale) ==
  {<<agg.dofs[j], scale * agg.eig[k][j]>> :
     j \in {i \in 1..Len(agg.dofs) : agg.eig[k][i] # 0}}
Delta(agg, k, gd, scale) ==
  {<<agg.dofs[j], (scale * agg.diag[j] * agg.eig[k][j]) \div gd[agg.dofs[j]]
                   - scale * agg.eig[k][j]>> :
     j \in {i \in 1..Len(agg.dofs) :
              agg.eig[k][i] # 0 /\ agg.diag[i] # gd[agg.dofs[i]]}}
NonZero(row) == {e \in Range(row) : e[2] # 0}
NoTwice(row) == Cardinality({e[1] : e \in Range(row)}) = Len(row)

(* rec: what one processor holds of a matrix afterwards                        *)
RowsOk(cs, r, rec, gd, scale, Entries(_, _, _, _)) ==
  /\ rec.first = Before(cs, r)
  /\ rec.last = rec.first + NRowsOf(cs[r])
  /\ rec.m = Before(cs, Len(cs) + 1)
  /\ Len(rec.rows) = NRowsOf(cs[r])
  /\ \A k \in 1..Len(rec.rows) :
       LET at == Locate(cs[r], 1, k) IN
       /\ NoTwice(rec.rows[k])
       /\ NonZero(rec.rows[k]) = Entries(cs[r][at[1]], at[2], gd, scale)

-----------------------------------------------------------------------------
(* The machine: processors exchange their numbers of rows (nobody goes on before
   everybody has given its number), then each adds its entries one at a time,
   in any interleaving.                                                       *)
VARIABLES contrib, gdiag, told, start, at, matrix
vars == <<contrib, gdiag, told, start, at, matrix>>
Procs == 1..Len(contrib)
Init0 ==
  /\ told = [p \in Procs |-> FALSE]
  /\ start = [p \in Procs |-> -1]
  /\ at = [p \in Procs |-> <<1, 1, 1>>]      \* agglomerate, eigenvector, entry
  /\ matrix = {}                             \* <<processor, row, column, value>>
Tell(p) == ~told[p] /\ told' = [told EXCEPT ![p] = TRUE]
           /\ UNCHANGED <<contrib, gdiag, start, at, matrix>>
Know(p) ==
  /\ \A q \in Procs : told[q]
  /\ start[p] = -1 /\ start' = [start EXCEPT ![p] = Before(contrib, p)]
  /\ UNCHANGED <<contrib, gdiag, told, at, matrix>>
\* the next entry to add, if there is one
RECURSIVE Skip(_, _)
Skip(c, x) ==
  IF x[1] > Len(c) THEN x
  ELSE IF x[2] > Len(c[x[1]].eig) THEN Skip(c, <<x[1] + 1, 1, 1>>)
  ELSE IF x[3] > Len(c[x[1]].dofs) THEN Skip(c, <<x[1], x[2] + 1, 1>>)
  ELSE x
RowOf(c, x) == Sum([a \in 1..(x[1] - 1) |-> Len(c[a].eig)]) + x[2] - 1
Add(p) ==
  LET c == contrib[p] IN LET x == Skip(c, at[p]) IN
  /\ start[p] # -1 /\ x[1] <= Len(c)
  /\ at' = [at EXCEPT ![p] = <<x[1], x[2], x[3] + 1>>]
  /\ LET agg == c[x[1]] IN LET g == agg.dofs[x[3]] IN
     matrix' = matrix \cup
       {<<p, start[p] + RowOf(c, x), g,
          (8 * agg.diag[x[3]] * agg.eig[x[2]][x[3]]) \div gdiag[g]>>}
  /\ UNCHANGED <<contrib, gdiag, told, start>>
TellAny == \E p \in Procs : Tell(p)
KnowAny == \E p \in Procs : Know(p)
AddAny == \E p \in Procs : Add(p)
Next == TellAny \/ KnowAny \/ AddAny
Done == \A p \in Procs : start[p] # -1 /\ Skip(contrib[p], at[p])[1] > Len(contrib[p])

\* no row has two writers
OneOwner == \A e, f \in matrix : e[2] = f[2] => e[1] = f[1]
\* no entry is written twice
OneValue == \A e, f \in matrix : (e[2] = f[2] /\ e[3] = f[3]) => e = f
ProcRec(p) ==
  [first |-> start[p], last |-> start[p] + NRowsOf(contrib[p]),
   m |-> Before(contrib, Len(contrib) + 1),
   rows |-> [k \in 1..NRowsOf(contrib[p]) |->
     SetToSeq({<<e[3], e[4]>> : e \in {f \in matrix : f[2] = start[p] + k - 1}})]]
Assembled ==
  Done => \A p \in Procs : RowsOk(contrib, p, ProcRec(p), gdiag, 8, Weighted)

-----------------------------------------------------------------------------
(* Partition of unity: own[a][g] the diagonal of agglomerate a, all[g] the sum
   over all agglomerates, w[a][g] the weights in units of 1/scale.            *)
WeightOk(w, own, all, scale, tol) == Abs(w * all - own * scale) <= tol * all
=============================================================================
