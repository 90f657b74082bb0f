---------------------------- MODULE VCycleTrace -----------------------------
(* The calls the real hierarchy made, checked against VCycle step by step.    *)
EXTENDS VCycle, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Get(p, k, d) == IF k \in DOMAIN p THEN p[k] ELSE d
\* the configuration the user gave, with the documented defaults
Effective(e) ==
  [A |-> e.A, R |-> e.R, S |-> e.S, M |-> e.M, P |-> e.P,
   L |-> Get(e.params, "max levels", 2),
   ns |-> Get(e.params, "smoother.n_smoothing_steps", 1),
   pre |-> Get(e.params, "is preconditioner", TRUE),
   fast |-> Get(e.params, "fast_ap", FALSE)]

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

TInit ==
  /\ l = 2 /\ Trace[1].ev = "Prob"
  /\ Init(Effective(Trace[1]))
\* a new scenario begins (only after the previous one came to its end)
TProb ==
  /\ Is("Prob") /\ phase = "done"
  /\ LET p == Effective(Ev) IN
       /\ prob' = WithOps(p)
       /\ built' = [S |-> 0, R |-> 0, F |-> 0, C |-> FALSE]
       /\ phase' = "setup" /\ stack' = <<>>
       /\ b0' = <<>> /\ x0' = <<>> /\ ret' = <<>>
TBegin == Is("Begin") /\ UNCHANGED vars
TBuildS == Is("BuildS") /\ Ev.id = built.S /\ BuildSmoother(Ev.A)
TBuildR == Is("BuildR") /\ Ev.id = built.R /\ BuildRestrictor
TBuildF == Is("BuildFast") /\ Ev.id = built.F /\ BuildFast
TBuildC == Is("BuildC") /\ BuildCoarse(Ev.A, Ev.zero)
TBuilt == Is("Built") /\ Built
TCall == Is("Call") /\ Call(Ev.b, Ev.x)
TSmooth ==
  /\ Is("S") /\ Smooth
  /\ Ev.id = Top.l - 1 /\ Ev.b = Top.b /\ Ev.x0 = Top.x
  /\ Ev.x1 = stack'[Len(stack')].x
TDescend ==
  /\ Is("R") /\ phase = "run" /\ Ev.id = Top.l - 1
  /\ \E sg \in {1, -1} :
       /\ Descend(sg)
       /\ Ev.in = VScale(sg, Residual(prob, Top.l, Top.b, Top.x))
       /\ Ev.out = stack'[Len(stack')].b
TSolve ==
  /\ Is("C") /\ Solve
  /\ Ev.b = Top.b /\ Ev.x0 = Top.x /\ Ev.x1 = stack'[Len(stack')].x
\* whatever sign convention is used, the vector that is prolonged is the
\* coarse level's answer up to that sign
TAscend ==
  /\ Is("RT") /\ Ascend
  /\ Ev.id = stack'[Len(stack')].l - 1
  /\ \E sg \in {1, -1} : Ev.in = VScale(sg, Top.x)
\* applying a level operator changes nothing
TApplyA == Is("A") /\ UNCHANGED vars
\* the right-hand side is not touched, and the answer is the machine's
TRet == Is("Ret") /\ Return /\ ret' = Ev.x /\ Ev.b = b0 /\ Ev.x = Meant(prob, b0, x0)
TEnd == Is("End") /\ Ev.how = "ok" /\ phase = "idle" /\ phase' = "done"
        /\ UNCHANGED <<prob, built, stack, b0, x0, ret>>

TNext ==
  \/ TProb \/ TBegin \/ TBuildS \/ TBuildR \/ TBuildF \/ TBuildC \/ TBuilt
  \/ TCall \/ TSmooth \/ TDescend \/ TSolve \/ TAscend \/ TApplyA \/ TRet \/ TEnd
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
