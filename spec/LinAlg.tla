------------------------------- MODULE LinAlg -------------------------------
(* Vectors are sequences of integers, matrices sequences of rows.  Everything
   the harnesses hand to TLC is an exact integer (or an exact multiple of a
   power of two, or a fixed-point number with a stated tolerance), so the
   specification computes the expected numbers itself.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* TLCEval: TLC would otherwise evaluate function bodies again at every access
ZeroVec(n) == TLCEval([i \in 1..n |-> 0])
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
VScale(c, a) == TLCEval([i \in 1..Len(a) |-> c * a[i]])
Dot(a, b) == LET t(i) == a[i] * b[i] IN SumTo(t, Len(a))

NRows(m) == Len(m)
NCols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Transpose(m) ==
  TLCEval([j \in 1..NCols(m) |-> [i \in 1..NRows(m) |-> m[i][j]]])
MatVec(m, x) == TLCEval([i \in 1..NRows(m) |-> Dot(m[i], x)])
MatTVec(m, x) ==
  TLCEval([j \in 1..NCols(m) |->
     LET t(i) == m[i][j] * x[i] IN SumTo(t, NRows(m))])
MatMul(a, b) ==
  TLCEval([i \in 1..NRows(a) |-> [j \in 1..NCols(b) |->
     LET t(k) == a[i][k] * b[k][j] IN SumTo(t, NCols(a))]])
MatMulT(a, b) == \* a b^T
  TLCEval([i \in 1..NRows(a) |-> [j \in 1..NRows(b) |-> Dot(a[i], b[j])]])

Near(a, b, tol) == Abs(a - b) <= tol
VNear(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)

Range(s) == {s[i] : i \in DOMAIN s}
SeqMax(s) == CHOOSE m \in Range(s) : \A y \in Range(s) : y <= m
=============================================================================
