----------------------------- MODULE PtreeTrace ------------------------------
EXTENDS Ptree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 2 /\ Trace[1].ev = "Start" /\ PInit
TStart ==
  /\ l <= Len(Trace) /\ Ev.ev = "Start" /\ l' = l + 1
  /\ tree' = <<>> /\ list' = <<>>
TConvert ==
  /\ l <= Len(Trace) /\ Ev.ev = "Plist" /\ l' = l + 1
  /\ Ev.how = "ok"
  /\ Convert(Ev.tree, Ev.out)
TSpec == TInit /\ [][TStart \/ TConvert]_<<tree, list, l>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
