------------------------------- MODULE MC_Local -------------------------------
(* From the agglomerate matrix to its eigenpairs, for diagonal matrices: shift by
   the average of the diagonal, give the constrained dofs an eigenvalue of their
   own, take the smallest, shift back. In units of 1 / N.                       *)
EXTENDS Eigen
CONSTANTS N, Entries, FixedEntries
VARIABLES state, diag, fixed, want, shifted, bound, found
vars == <<state, diag, fixed, want, shifted, bound, found>>
Eye == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 1 ELSE 0]]
Sum == LET f(i) == diag[i] IN SumTo(f, N)

Init == /\ state = "given" /\ diag = <<>> /\ fixed = {} /\ want = 0
        /\ shifted = <<>> /\ bound = 0 /\ found = <<>>
Assemble ==
  /\ state = "given" /\ state' = "assembled"
  /\ fixed' \in SUBSET (1..N) /\ want' \in 1..N
  /\ diag' \in {d \in [1..N -> Entries \union FixedEntries] :
                  \A i \in 1..N : d[i] \in (IF i \in fixed' THEN FixedEntries ELSE Entries)}
  /\ UNCHANGED <<shifted, bound, found>>
Shift ==
  /\ state = "assembled" /\ state' = "shifted"
  /\ LET s == [i \in 1..N |-> N * diag[i] + Sum] IN
     LET b == Max({100 * N} \union Range(s)) IN
     /\ bound' = b
     /\ shifted' = [i \in 1..N |-> IF i \in fixed THEN 2 * b ELSE s[i]]
  /\ UNCHANGED <<diag, fixed, want, found>>
Solve ==
  /\ state = "shifted"
  /\ LET inside == Sorted(SelectSeq(shifted, LAMBDA e : -N < 2 * e /\ 2 * e <= 3 * bound)) IN
     IF Len(inside) < want THEN state' = "error" /\ UNCHANGED found
     ELSE /\ state' = "done"
          /\ found' = [i \in 1..want |-> inside[i] - Sum]
  /\ UNCHANGED <<diag, fixed, want, shifted, bound>>
Spec == Init /\ [][Assemble \/ Shift \/ Solve]_vars

Smallest ==
  state = "done" =>
    /\ want <= N - Cardinality(fixed)
    /\ found = [i \in 1..want |-> N * SmallestFree(diag, Eye, fixed, want)[i]]
ErrorOnlyWhenImpossible == state = "error" => want > N - Cardinality(fixed)
=============================================================================
