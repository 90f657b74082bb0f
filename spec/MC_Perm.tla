------------------------------- MODULE MC_Perm -------------------------------
EXTENDS Perm
CONSTANT MaxN
Perms(n) == {p \in [1..n -> 0..(n - 1)] : \A a, b \in 1..n : p[a] = p[b] => a = b}
MCInit == \E n \in 0..MaxN : \E p \in Perms(n) : Init(p, [i \in 1..n |-> 10 + i])
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Complete
=============================================================================
