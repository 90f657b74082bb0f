----------------------------- MODULE ConfigTrace ------------------------------
(* What the real library did with configurations and calls.

   Begin: conf  the configuration (Setup), or on and call (Call)                *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, case, due
tvars == <<l, case, due>>
Ev == Trace[l]
TInit == l = 2 /\ Trace[1].ev = "Begin" /\ case = Trace[1] /\ due = TRUE
TBegin ==
  /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ ~ due
  /\ case' = Ev /\ due' = TRUE /\ l' = l + 1
One(e, runs) ==
  \A p \in 1..Len(e.ranks) : e.ranks[p].outcome = (IF runs THEN "ok" ELSE "throw")
TSetup ==
  /\ l <= Len(Trace) /\ Ev.ev = "Setup" /\ due /\ case.what = "setup"
  /\ One(Ev, Runs(case.conf)) = TRUE
  /\ \A p \in 1..Len(Ev.ranks) : Ev.ranks[p].sane
  /\ due' = FALSE /\ l' = l + 1 /\ UNCHANGED case
TCall ==
  /\ l <= Len(Trace) /\ Ev.ev = "Call" /\ due /\ case.what = "call"
  /\ One(Ev, Supports(case.on, case.call)) = TRUE
  /\ due' = FALSE /\ l' = l + 1 /\ UNCHANGED case
TSpec == TInit /\ [][TBegin \/ TSetup \/ TCall]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
