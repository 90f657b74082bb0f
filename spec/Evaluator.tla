------------------------------ MODULE Evaluator -------------------------------
(* What a mesh evaluator hands out: the initial guess for an eigensolver and the
   diagonal of the global operator, known to every processor that sees a dof.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Ids(s) == {s[i] : i \in 1..Len(s)}
NoDuplicates(s) == Len(s) = Cardinality(Ids(s))
Indices(n) == 0..(n - 1)

(* ---- initial guess ---- *)
GuessOk(n, fixed, zero, inside) ==
  /\ Ids(zero) = Ids(fixed)
  /\ Ids(inside) = Indices(n) \ Ids(fixed)

(* ---- distributions: shares is a sequence of what the processors own ---- *)
IsPartition(shares, n) ==
  /\ \A r \in 1..Len(shares) : NoDuplicates(shares[r]) /\ Ids(shares[r]) \subseteq Indices(n)
  /\ \A i \in Indices(n) : Cardinality({r \in 1..Len(shares) : i \in Ids(shares[r])}) = 1
(* ---- the diagonal: entry i of the operator is given(i) ---- *)
Given(d, i) == d[(i % Len(d)) + 1]
DiagonalOk(d, relevant, where, values) ==
  /\ Ids(where) = Ids(relevant) /\ Len(values) = Len(where)
  /\ \A k \in 1..Len(where) : values[k] = Given(d, where[k])
=============================================================================
