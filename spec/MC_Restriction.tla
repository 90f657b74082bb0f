---------------------------- MODULE MC_Restriction ----------------------------
(* Every contribution of up to P processors with up to A agglomerates of up to
   two eigenvectors on some of the degrees of freedom 0..1.                    *)
EXTENDS Restriction
CONSTANTS P, A
Aggs ==
  {[dofs |-> d, diag |-> [j \in 1..Len(d) |-> j], eig |-> e] :
     d \in {<<0>>, <<1, 0>>},
     e \in {<<>>, <<<<3, 0>>>>, <<<<1, -2>>, <<0, 5>>>>}}
Contribs == UNION {[1..k -> Aggs] : k \in 0..A}
MCInit ==
  /\ \E p \in 1..P : contrib \in [1..p -> Contribs]
  /\ gdiag = [g \in 0..1 |-> 2 * g + 2]
  /\ Init0
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Termination == <>Done
=============================================================================
