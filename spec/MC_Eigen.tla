------------------------------- MODULE MC_Eigen -------------------------------
(* The Lanczos cycles on every small spectrum, and what a starting vector reaches
   against the dimension of its Krylov space.                                   *)
EXTENDS Eigen
CONSTANTS Top, N
VARIABLES spec, rot, x, per, cycles, want, cycle, found, left, state
vars == <<spec, rot, x, per, cycles, want, cycle, found, left, state>>

\* columns: the axes, or the columns of the reflection 2 I - (1 1 1 1)
Q0(r) == IF r THEN [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 2 * 1 - 1 ELSE -1]]
         ELSE [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE 0]]
\* Q D Q^T: 4 A for the reflection
Operator(d, r) ==
  LET q == Q0(r) IN MatMulT([i \in 1..N |-> [j \in 1..N |-> q[i][j] * d[j]]], q)
Eigs(d, r) == IF r THEN [j \in 1..N |-> 4 * d[j]] ELSE d

\* rank by elimination without fractions
Pivot(m, c) == LET p == {i \in 1..Len(m) : m[i][c] # 0} IN IF p = {} THEN 0 ELSE Min(p)
RECURSIVE RankFrom(_, _)
RankFrom(m, c) ==
  IF Len(m) = 0 \/ c > Len(m[1]) THEN 0
  ELSE LET p == Pivot(m, c) IN
       IF p = 0 THEN RankFrom(m, c + 1)
       ELSE LET rest == RemoveAt(m, p) IN
            1 + RankFrom([i \in 1..Len(rest) |->
                  [j \in 1..Len(m[1]) |-> m[p][c] * rest[i][j] - rest[i][c] * m[p][j]]], c + 1)
\* the Krylov matrix in the coordinates of the eigenvectors keeps numbers small
RECURSIVE Krylov(_, _, _)
Krylov(a, y, n) == IF n = 0 THEN <<>> ELSE <<y>> \o Krylov(a, MatVec(a, y), n - 1)

Init ==
  /\ spec \in [1..N -> 0..Top] /\ rot \in (IF N = 4 THEN BOOLEAN ELSE {FALSE})
  /\ x \in [1..N -> IF N = 4 THEN {0, 1} ELSE {-1, 0, 1, 2}] /\ x # ZeroVec(N)
  /\ per \in 1..2 /\ cycles \in 1..3 /\ want \in 1..(per * cycles)
  /\ rot => \A i \in 1..N : x[i] # 0
  /\ cycle = 0 /\ found = <<>>
  /\ left = <<>> /\ state = "run"
Cycle ==
  /\ state = "run" /\ cycle < cycles
  /\ LET q == Q0(rot) IN LET d == Eigs(spec, rot) IN
     LET all == IF cycle = 0 THEN ReachedAfter(d, q, x) ELSE left IN
     LET v == Values(IF cycle = 0 THEN ReachedOnce(d, q, x) ELSE left) IN
     IF Len(v) < per THEN state' = "error" /\ UNCHANGED <<found, left>>
     ELSE /\ found' = found \o SubSeq(v, 1, per)
          /\ left' = Minus(all, Range(SubSeq(v, 1, per)))
          /\ state' = state
  /\ cycle' = cycle + 1 /\ UNCHANGED <<spec, rot, x, per, cycles, want>>
Return ==
  /\ state = "run" /\ cycle = cycles /\ state' = "done"
  /\ found' = SubSeq(Sorted(found), 1, want)
  /\ UNCHANGED <<spec, rot, x, per, cycles, want, cycle, left>>
Spec == Init /\ [][Cycle \/ Return]_vars /\ WF_vars(Cycle \/ Return)

Known == IsSpectrum(Operator(spec, rot), Eigs(spec, rot), Q0(rot))
ReachIsKrylov ==
  cycle = 0 =>
    RankFrom(Krylov(Operator(spec, FALSE), IF rot THEN MatTVec(Q0(rot), x) ELSE x, N), 1)
      = Cardinality(DOMAIN ReachedOnce(Eigs(spec, rot), Q0(rot), x))
SameAsRun ==
  LET r == Run(Eigs(spec, rot), Q0(rot), x, want, per, cycles) IN
  /\ state = "done" => r.ok /\ r.evals = found
  /\ state = "error" => ~ r.ok
\* never more often than its multiplicity
InSpectrum ==
  \A e \in Range(found) :
    BagOf(found)[e] <= Cardinality({j \in 1..N : Eigs(spec, rot)[j] = e})
\* one cycle: the smallest reached; enough cycles: the smallest with multiplicity
Smallest ==
  state = "done" =>
    LET bag == ReachedAfter(Eigs(spec, rot), Q0(rot), x) IN
    LET s == SelectSeq(Sorted(Eigs(spec, rot)), LAMBDA e : e \in DOMAIN bag) IN
    /\ cycles = 1 => found = SubSeq(Values(ReachedOnce(Eigs(spec, rot), Q0(rot), x)), 1, want)
    /\ (want <= per /\ (\A e \in DOMAIN bag : bag[e] <= cycles)) =>
         BagOf(found) = BagOf(SubSeq(Sorted(FoldLeft(LAMBDA q, e : q \o [i \in 1..bag[e] |-> e],
                              <<>>, Values(bag))), 1, want))
Finishes == <>(state # "run")
=============================================================================
