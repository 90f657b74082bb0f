--------------------------- MODULE MC_FastProduct ---------------------------
(* Every partition of the chain, coefficients 1 and 2, cuts, every schedule.        *)
EXTENDS FastProduct
Partitions ==
  {f \in [Cells -> 1..N] :
     f[1] = 1 /\ \A k \in 2..N : \E m \in 1..(k - 1) : f[k] <= f[m] + 1}
MCInit ==
  /\ coef \in [Cells -> {1, 2}] /\ agg \in Partitions
  /\ cut \in SUBSET (1..(N - 1))
  /\ vec = [a \in 1..N |-> [g \in Dofs |-> (a + 2 * g) - 5 * ((a + 2 * g) \div 5) - 1]]
  /\ Init0
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
