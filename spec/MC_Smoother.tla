----------------------------- MODULE MC_Smoother -----------------------------
(* The sweeps visit one row after the other; at the end they have solved the
   system of the part of the matrix that defines the method.  All matrices with
   three rows, small entries and given diagonals.                               *)
EXTENDS Smoother
Off == {-1, 0, 1}
Ix == 0..2
S == 64
VARIABLES a, r, y, pos, kind
vars == <<a, r, y, pos, kind>>
Seq3 == <<0, 1, 2>>
Path == IF kind = "symmetric" THEN <<0, 1, 2, 2, 1, 0>> ELSE Seq3
Rows == \/ pos < Len(Path) /\ y' = Visit(a, r, y, Path[pos + 1], Ix) /\ pos' = pos + 1
Next == Rows /\ UNCHANGED <<a, r, kind>>
Part(keep(_, _)) == [i \in Ix |-> [j \in {j \in DOMAIN a[i] : keep(i, j)} |-> a[i][j]]]
Lower == Part(LAMBDA i, j : j <= i)
Upper == Part(LAMBDA i, j : j >= i)
Done == pos = Len(Path)
\* (D + L) y = r, and (D + L) D^-1 (D + U) y = r
Solves ==
  Done => IF kind = "forward" THEN MatVec(Lower, y) = r /\ y = GaussSeidel(a, r, Seq3)
          ELSE /\ y = SymmetricGS(a, r, Seq3)
               /\ LET w == MatVec(Upper, y) IN
                  MatVec(Lower, [i \in Ix |-> Even(w[i], a[i][i])]) = r
\* the incomplete factors multiply to the matrix wherever it has an entry
FactorsFit ==
  (pos = 0 /\ a[0][0] = 1 /\ a[1][1] - Val(a[1], 0) * Val(a[0], 1) \in {-1, 1}) =>
    LET f == Factors(a, Seq3) IN
    \A i \in Ix : \A j \in DOMAIN a[i] :
      LET t(k) == (IF k = i THEN 1 ELSE IF k \in DOMAIN f[i] THEN f[i][k] ELSE 0) *
                  (IF j \in DOMAIN f[k] THEN f[k][j] ELSE 0) IN
      SumOver({k \in Ix : k <= i /\ k <= j}, t) = a[i][j]
MCInit ==
  /\ kind \in {"forward", "symmetric"} /\ pos = 0 /\ y = [i \in Ix |-> 0]
  /\ \E d \in [Ix -> {1, 2}], o \in [{<<i, j>> \in Ix \X Ix : i # j} -> Off] :
       LET v(i, j) == IF i = j THEN d[i] ELSE o[<<i, j>>] IN
       a = [i \in Ix |-> [j \in {j \in Ix : v(i, j) # 0} |-> v(i, j)]]
  /\ r \in {[i \in Ix |-> S * 4 * (IF i = k THEN 1 ELSE 2)] : k \in Ix}
MCSpec == MCInit /\ [][Next]_vars
=============================================================================
