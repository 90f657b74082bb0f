------------------------------- MODULE VCycle -------------------------------
(* Setup and application of a multigrid hierarchy, at the granularity of the
   calls it makes on the things it is built from: level operators, smoothers,
   restrictors and the coarse solver.

   A problem p is a record
     A  : fine operator           R  : sequence of restriction matrices
     S  : sequence of smoother matrices (one sweep: x <- x + S (b - A x))
     M  : coarse solver matrix    P  : sequence of fast A R^T products
     L  : number of levels        ns : number of smoothing sweeps
     pre: used as a preconditioner (start from zero)
     fast: the A R^T products come from the helper's fast path               *)
EXTENDS LinAlg, TLC

VARIABLES
  prob,    \* the problem
  built,   \* [S, R, F |-> how many were built, C |-> coarse solver built]
  phase,   \* "setup" | "idle" | "run" | "done"
  stack,   \* active levels, innermost last
  b0, x0,  \* arguments of the running (or last) application
  ret      \* its result

vars == <<prob, built, phase, stack, b0, x0, ret>>

\* the operators of all levels: Galerkin products, or the fast product
RECURSIVE LevelOps(_, _, _)
LevelOps(p, ops, l) ==
  IF l > p.L THEN ops
  ELSE LET R == p.R[l-1]
           a == IF p.fast THEN MatMul(R, p.P[l-1])
                ELSE MatMul(R, MatMulT(ops[l-1], R))
       IN LevelOps(p, Append(ops, a), l + 1)
WithOps(p) == TLCEval(p @@ [ops |-> LevelOps(p, <<p.A>>, 2)])
LevelOp(p, l) == p.ops[l]

Dim(p, l) == NRows(LevelOp(p, l))

\* What the hierarchy is meant to compute, in closed form.
Residual(p, l, b, x) == VSub(b, MatVec(LevelOp(p, l), x))
RECURSIVE Sweeps(_, _, _, _, _)
Sweeps(p, l, b, x, k) ==
  IF k = 0 THEN x
  ELSE Sweeps(p, l, b, VAdd(x, MatVec(p.S[l], Residual(p, l, b, x))), k - 1)
RECURSIVE Cycle(_, _, _, _)
Cycle(p, l, b, x) ==
  IF l = p.L THEN VAdd(x, MatVec(p.M, Residual(p, l, b, x)))
  ELSE LET xp == Sweeps(p, l, b, x, p.ns)
           bc == MatVec(p.R[l], Residual(p, l, b, xp))
           xc == Cycle(p, l + 1, bc, ZeroVec(Len(bc)))
       IN  Sweeps(p, l, b, VAdd(xp, MatTVec(p.R[l], xc)), p.ns)
Start(p, x) == IF p.pre THEN ZeroVec(Len(x)) ELSE x
Meant(p, b, x) == Cycle(p, 1, b, Start(p, x))

-----------------------------------------------------------------------------
Init(p) ==
  /\ prob = WithOps(p)
  /\ built = [S |-> 0, R |-> 0, F |-> 0, C |-> FALSE]
  /\ phase = "setup" /\ stack = <<>>
  /\ b0 = <<>> /\ x0 = <<>> /\ ret = <<>>

\* ---- setup: every level but the last gets a smoother and a restrictor, the
\* last one gets the coarse solver, all for the right operator
BuildSmoother(a) ==
  /\ phase = "setup" /\ built.S < prob.L - 1
  /\ a = LevelOp(prob, built.S + 1)
  /\ built' = [built EXCEPT !.S = @ + 1]
  /\ UNCHANGED <<prob, phase, stack, b0, x0, ret>>
BuildRestrictor ==
  /\ phase = "setup" /\ built.R < prob.L - 1
  /\ built' = [built EXCEPT !.R = @ + 1]
  /\ UNCHANGED <<prob, phase, stack, b0, x0, ret>>
BuildFast ==
  /\ phase = "setup" /\ prob.fast /\ built.F < prob.L - 1
  /\ built' = [built EXCEPT !.F = @ + 1]
  /\ UNCHANGED <<prob, phase, stack, b0, x0, ret>>
BuildCoarse(a, zero) ==
  /\ phase = "setup" /\ ~built.C
  /\ a = LevelOp(prob, prob.L)
  \* with a single level the coarse solver is the whole hierarchy, and must
  \* keep a standalone user's initial guess
  /\ prob.L = 1 => zero = (IF prob.pre THEN "true" ELSE "false")
  /\ built' = [built EXCEPT !.C = TRUE]
  /\ UNCHANGED <<prob, phase, stack, b0, x0, ret>>
Built ==
  /\ phase = "setup"
  /\ built.S = prob.L - 1 /\ built.R = prob.L - 1 /\ built.C
  /\ built.F = IF prob.fast THEN prob.L - 1 ELSE 0
  /\ phase' = "idle"
  /\ UNCHANGED <<prob, built, stack, b0, x0, ret>>

\* ---- application
Frame(l, b, x) ==
  [l |-> l, b |-> b, x |-> x, k |-> 0, sg |-> 1,
   at |-> IF l = prob.L THEN "solve" ELSE "pre"]
Top == stack[Len(stack)]
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]

Call(b, x) ==
  /\ phase = "idle"
  /\ phase' = "run"
  /\ b0' = b /\ x0' = x
  /\ stack' = <<Frame(1, b, Start(prob, x))>>
  /\ UNCHANGED <<prob, built, ret>>

\* one sweep of the smoother of the innermost level, before or after the
\* coarse-grid correction
Smooth ==
  /\ phase = "run" /\ Top.at \in {"pre", "post"} /\ Top.k < prob.ns
  /\ LET f == Top
         d == MatVec(prob.S[f.l], Residual(prob, f.l, f.b, f.x))
     IN stack' = SetTop([f EXCEPT !.x = VAdd(@, d), !.k = @ + 1])
  /\ UNCHANGED <<prob, built, phase, b0, x0, ret>>

\* restrict the residual (or its negative: the cycle is linear) and descend
Descend(sg) ==
  /\ phase = "run" /\ Top.at = "pre" /\ Top.k = prob.ns
  /\ LET f == Top
         r == Residual(prob, f.l, f.b, f.x)
         bc == VScale(sg, MatVec(prob.R[f.l], r))
     IN stack' = Append(SetTop([f EXCEPT !.at = "wait", !.sg = sg]),
                        Frame(f.l + 1, bc, ZeroVec(Len(bc))))
  /\ UNCHANGED <<prob, built, phase, b0, x0, ret>>

Solve ==
  /\ phase = "run" /\ Top.at = "solve"
  /\ LET f == Top
         d == MatVec(prob.M, Residual(prob, f.l, f.b, f.x))
     IN stack' = SetTop([f EXCEPT !.x = VAdd(@, d), !.at = "ready"])
  /\ UNCHANGED <<prob, built, phase, b0, x0, ret>>

Finished(f) == f.at = "ready" \/ (f.at = "post" /\ f.k = prob.ns)

\* prolong the coarse correction and add it
Ascend ==
  /\ phase = "run" /\ Len(stack) > 1 /\ Finished(Top)
  /\ LET c == Top
         f == stack[Len(stack) - 1]
         d == VScale(f.sg, MatTVec(prob.R[f.l], c.x))
     IN stack' = [SubSeq(stack, 1, Len(stack) - 1)
                    EXCEPT ![Len(stack) - 1] =
                      [f EXCEPT !.x = VAdd(@, d), !.at = "post", !.k = 0]]
  /\ UNCHANGED <<prob, built, phase, b0, x0, ret>>

Return ==
  /\ phase = "run" /\ Len(stack) = 1 /\ Finished(Top)
  /\ ret' = Top.x /\ stack' = <<>> /\ phase' = "idle"
  /\ UNCHANGED <<prob, built, b0, x0>>

-----------------------------------------------------------------------------
\* Properties
\* the machine computes what is meant, whatever garbage x held when used as a
\* preconditioner, and whatever signs were chosen on the way down
Correct == (phase = "idle" /\ ret # <<>>) => ret = Meant(prob, b0, x0)
\* a standalone hierarchy leaves an exact solution alone
FixedPoint ==
  (phase = "idle" /\ ret # <<>> /\ ~prob.pre /\ b0 = MatVec(prob.A, x0))
    => ret = x0
\* a preconditioner does not see the old contents of x
NoGarbage ==
  (phase = "idle" /\ ret # <<>> /\ prob.pre)
    => ret = Meant(prob, b0, ZeroVec(Len(b0)))
\* coarse levels start from zero; each level is entered at most once at a time
CoarseFromZero ==
  \A i \in 2..Len(stack) :
    (stack[i].at \in {"pre", "solve"} /\ stack[i].k = 0)
      => stack[i].x = ZeroVec(Len(stack[i].x))
LevelsNested == \A i \in 1..Len(stack) : stack[i].l = i
=============================================================================
