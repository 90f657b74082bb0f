------------------------------- MODULE OpAlg -------------------------------
(* The algebra of operators: sparse integer matrices and what every call of the
   operator interface means.

   A matrix is a function row -> (column -> value) on all of its rows; zeros are
   left out.  Values of a matrix with exponent e are in units of 2^-e.           *)
EXTENDS Integers, Sequences, TLC, FiniteSets, SequencesExt

Abs(v) == IF v < 0 THEN -v ELSE v

Clean(f) == [j \in {x \in DOMAIN f : f[x] # 0} |-> f[j]]
CleanAll(a) == TLCEval([i \in DOMAIN a |-> Clean(a[i])])
SumOver(S, t(_)) == FoldLeft(LAMBDA x, j : x + t(j), 0, SetToSeq(S))
Val(f, j) == IF j \in DOMAIN f THEN f[j] ELSE 0
\* from a list of <<row, column, value>> (a position set twice: the last counts)
FromEntries(rows, es) ==
  LET put(a, x) == [a EXCEPT ![x[1]] = (x[2] :> x[3]) @@ @] IN
  CleanAll(FoldLeft(put, [i \in rows |-> << >>], es))

Dot(f, g) == LET t(j) == f[j] * g[j] IN SumOver(DOMAIN f \cap DOMAIN g, t)
MatVec(a, x) == TLCEval([i \in DOMAIN a |-> Dot(a[i], x)])
Transpose(a, cols) ==
  TLCEval([j \in cols |-> [i \in {i \in DOMAIN a : j \in DOMAIN a[i]} |-> a[i][j]]])
Times(a, b) ==
  CleanAll([i \in DOMAIN a |->
    LET js == UNION {DOMAIN b[k] : k \in DOMAIN a[i]} IN
    [j \in js |-> LET t(k) == a[i][k] * Val(b[k], j) IN SumOver(DOMAIN a[i], t)]])
TimesTransposed(a, b) ==
  CleanAll([i \in DOMAIN a |-> [k \in DOMAIN b |-> Dot(a[i], b[k])]])

\* values too small to be told from nothing (below 1e-14) may be dropped
MayDrop(v, e) == e >= 48 /\ Abs(v) <= 2
UpToDrops(got, want, e) ==
  /\ DOMAIN got = DOMAIN want
  /\ \A i \in DOMAIN want : \A j \in DOMAIN want[i] \cup DOMAIN got[i] :
       \/ Val(got[i], j) = Val(want[i], j)
       \/ j \notin DOMAIN got[i] /\ MayDrop(want[i][j], e)
=============================================================================
