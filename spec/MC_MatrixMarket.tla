-------------------------- MODULE MC_MatrixMarket ---------------------------
EXTENDS MatrixMarket

CONSTANTS MaxDim, MaxJobs
VARIABLE n
Objects ==
  {[kind |-> "vector", m |-> m, n |-> 1, val |-> [k \in 1..m |-> <<k - 1, 0, v[k]>>]] :
     m \in 1..MaxDim, v \in [1..MaxDim -> {0, 2}]}
  \union
  UNION {{[kind |-> "matrix", m |-> m, n |-> c, val |-> s] :
     s \in UNION {{q \in [1..k -> (0..m-1) \X (0..c-1) \X {0, 3}] :
                    \A a, b \in 1..k : a < b =>
                       (q[a][1] < q[b][1] \/ (q[a][1] = q[b][1] /\ q[a][2] < q[b][2]))} :
                  k \in 0..2}} : m \in 1..MaxDim, c \in 1..MaxDim}
\* consecutive rows over two or three processors, some without any
Splits(m) == {<<0..a-1, a..b-1, b..m-1>> : a \in 0..m, b \in 0..m}
Init == MMInit /\ n = 0
DoOpen ==
  /\ n < MaxJobs /\ n' = n + 1
  /\ \E f \in {"a", "b"}, o \in Objects :
       \E s \in {t \in Splits(o.m) : UNION {t[k] : k \in 1..3} = 0..o.m-1
                     /\ \A i, j \in 1..3 : i # j => t[i] \cap t[j] = {}} :
         Open(f, o, s)
DoGather == Gather /\ UNCHANGED n
DoClose == Close /\ UNCHANGED n
Next == DoOpen \/ DoGather \/ DoClose
Spec == Init /\ [][Next]_<<mmVars, n>>
=============================================================================
