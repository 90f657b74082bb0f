------------------------------ MODULE MC_OpAlg ------------------------------
(* Every program of up to Depth calls on every pair of 2 x 2 matrices over
   -1, 0, 1, and the column-by-column product of a distributed operator with a
   transposed distributed matrix, messages arriving in any order.               *)
EXTENDS OpAlg
Ix == {0, 1}
Procs == {"p", "q"}
Dense(m) == CleanAll([i \in Ix |-> [j \in Ix |-> m[i][j]]])
All == {Dense(m) : m \in [Ix -> [Ix -> {-1, 0, 1}]]}
CONSTANT Depth
VARIABLES a, b, how, c, rowOf, colOf, j, acc, mail, busy, out
vars == <<a, b, how, c, rowOf, colOf, j, acc, mail, busy, out>>

\* programs: how is the calls made since a and b, c their result
T(m) == Transpose(m, Ix)
Meaning(h) ==
  CASE h = <<>> -> a
    [] OTHER -> c
CallT == how' = Append(how, "t") /\ c' = T(c)
CallM == how' = Append(how, "m") /\ c' = Times(c, b)
CallMT == how' = Append(how, "mt") /\ c' = TimesTransposed(c, b)
\* (the two machines do not share anything: programs with one distribution)
Program == j = 0 /\ ~busy /\ rowOf[1] = "p" /\ colOf[1] = "p"
           /\ Len(how) < Depth /\ (CallT \/ CallM \/ CallMT)
           /\ UNCHANGED <<a, b, rowOf, colOf, j, acc, mail, busy, out>>
\* the laws that make the calls one algebra
Laws ==
  /\ T(T(c)) = c
  /\ T(Times(c, b)) = Times(T(b), T(c))
  /\ TimesTransposed(c, b) = Times(c, T(b))
  /\ \A x \in [Ix -> {-1, 1}] : MatVec(Times(c, b), x) = MatVec(c, MatVec(b, x))

\* column j of a b^T: the owner of row j of b sends every entry to the owner of
\* its column; then everyone applies a and keeps its rows
Send ==
  /\ how = <<>> /\ j \in Ix /\ ~busy /\ busy' = TRUE
  /\ mail' = {[to |-> colOf[k], at |-> k, v |-> b[j][k]] : k \in DOMAIN b[j]}
  /\ acc' = [k \in Ix |-> 0]
  /\ UNCHANGED <<a, b, how, c, rowOf, colOf, j, out>>
Arrive ==
  /\ mail # {}
  /\ \E m \in mail : acc' = [acc EXCEPT ![m.at] = @ + m.v] /\ mail' = mail \ {m}
  /\ UNCHANGED <<a, b, how, c, rowOf, colOf, j, busy, out>>
Fill ==
  /\ j \in Ix /\ busy /\ mail = {}
  /\ out' = [i \in Ix |-> [k \in Ix |-> IF k = j THEN MatVec(a, acc)[i] ELSE out[i][k]]]
  /\ j' = j + 1 /\ busy' = FALSE
  /\ UNCHANGED <<a, b, how, c, rowOf, colOf, acc, mail>>
Exact == j = 2 => CleanAll(out) = TimesTransposed(a, b)

MCInit ==
  /\ a \in All /\ b \in All /\ how = <<>> /\ c = a
  /\ rowOf \in [Ix -> Procs] /\ colOf \in [Ix -> Procs]
  /\ rowOf[0] = "p" /\ colOf[0] = "p"
  /\ j = 0 /\ acc = [k \in Ix |-> 0] /\ mail = {} /\ busy = FALSE /\ out = [i \in Ix |-> [k \in Ix |-> 0]]
MCSpec == MCInit /\ [][Program \/ Send \/ Arrive \/ Fill]_vars
=============================================================================
