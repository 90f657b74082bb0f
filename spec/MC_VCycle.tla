------------------------------ MODULE MC_VCycle ------------------------------
(* Exhaustive model: scalar levels, every small choice of operators, number of
   levels, number of sweeps, mode, right-hand side and old contents.          *)
EXTENDS VCycle
V1(n) == <<n>>
M1(n) == <<<<n>>>>
Problems ==
  {[A |-> M1(a), R |-> [i \in 1..2 |-> M1(r)], S |-> [i \in 1..2 |-> M1(s)],
    M |-> M1(m), P |-> [i \in 1..2 |-> M1(q)],
    L |-> l, ns |-> n, pre |-> pr, fast |-> fa] :
      a \in {1, 2}, r \in {-1, 2}, s \in {-1, 1}, m \in {-1, 1}, q \in {3},
      l \in 1..3, n \in 0..2, pr \in BOOLEAN, fa \in BOOLEAN}
MCInit == \E p \in Problems : Init(p)
BuildSmootherAny == \E a \in {LevelOp(prob, l) : l \in 1..prob.L} : BuildSmoother(a)
BuildCoarseAny ==
  \E a \in {LevelOp(prob, l) : l \in 1..prob.L}, z \in {"unset", "true", "false"} :
    BuildCoarse(a, z)
CallAny ==
  /\ ret = <<>>
  /\ \E b \in {0, 1}, x \in {0, 1, 7} : Call(V1(b), V1(x))
DescendAny == \E sg \in {1, -1} : Descend(sg)
MCNext ==
  \/ BuildSmootherAny \/ BuildRestrictor \/ BuildFast \/ BuildCoarseAny \/ Built
  \/ CallAny \/ Smooth \/ DescendAny \/ Solve \/ Ascend \/ Return
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
