----------------------------- MODULE PatchTrace -----------------------------
(* Patches built by the real code from the mesh recorded before them.         *)
EXTENDS Patch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, agg
tvars == <<vars, l, m, agg>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Machine == UNCHANGED vars
TInit ==
  /\ mesh = 0 /\ sel = 0 /\ patch = 0 /\ to = 0 /\ dofs = 0 /\ number = 0 /\ phase = 0
  /\ l = 2 /\ Trace[1].ev = "Mesh"
  /\ m = Trace[1].cells /\ agg = Trace[1].agg
TMesh == Is("Mesh") /\ Machine /\ m' = Ev.cells /\ agg' = Ev.agg
Selected ==
  IF Ev.by = "id" THEN {c \in 1..Len(m) : agg[c] = Ev.id}
  ELSE {c + 1 : c \in Range(Ev.list)}
TPatch ==
  /\ Is("Patch") /\ Machine /\ Ev.how = "ok"
  /\ Faithful(m, Selected, Ev.cells, Ev.to, Ev.dofs) = TRUE
  /\ UNCHANGED <<m, agg>>
TSpec == TInit /\ [][TMesh \/ TPatch]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
