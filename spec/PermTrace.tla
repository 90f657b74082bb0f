------------------------------ MODULE PermTrace ------------------------------
EXTENDS Perm, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Same == UNCHANGED vars
TInit == l = 2 /\ Trace[1].ev = "Start" /\ Init(<<>>, <<>>)
TStart == l <= Len(Trace) /\ Ev.ev = "Start" /\ l' = l + 1 /\ Same
\* the permutation sorts the pairs, and both arrays come out in that order
TSort ==
  /\ l <= Len(Trace) /\ Ev.ev = "Sort" /\ l' = l + 1
  /\ Sorts(Ev.perm, Ev.v1, Ev.v2) = TRUE
  /\ Ev.o1 = Gather(Ev.perm, Ev.v1) /\ Ev.o2 = Gather(Ev.perm, Ev.v2)
  /\ Same
TApply ==
  /\ l <= Len(Trace) /\ Ev.ev = "Apply" /\ l' = l + 1
  /\ IsPerm(Ev.perm, Len(Ev.v)) = TRUE
  /\ Ev.o = Gather(Ev.perm, Ev.v)
  /\ Same
TSpec == TInit /\ [][TStart \/ TSort \/ TApply]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
