----------------------------- MODULE TimingTrace -----------------------------
(* The life of real hierarchies, first without and then with a timer: the same
   things happen, in the sections they belong to.                             *)
EXTENDS Timing, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  plain,  \* what happened without a timer
  at,     \* how much of it has happened again
  seen    \* the kinds of work since the timer was last read
vars == <<tmVars, l, plain, at, seen>>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Strip(e) == [k \in DOMAIN e \ {"open", "timed", "calls"} |-> e[k]]

TInit == /\ l = 2 /\ Trace[1].ev = "Begin"
         /\ TmInit /\ plain = <<>> /\ at = 0 /\ seen = <<>>
TBegin == /\ Is("Begin") /\ at = Len(plain) /\ plain # <<>>
          /\ open' = <<>> /\ calls' = <<>> /\ plain' = <<>> /\ at' = 0 /\ seen' = <<>>

Plainly == /\ ~Ev.timed /\ at = 0
           /\ plain' = Append(plain, Strip(Ev))
           /\ UNCHANGED <<tmVars, at, seen>>
Again == /\ Ev.timed /\ at < Len(plain)
         /\ Strip(Ev) = plain[at + 1]
         /\ at' = at + 1 /\ UNCHANGED plain

TWork ==
  /\ l <= Len(Trace) /\ Ev.ev \in Kinds /\ l' = l + 1
  /\ \/ Plainly
     \/ /\ Again
        /\ Inside(Ev.open, Ev.ev) = TRUE
        /\ open' = Ev.open /\ UNCHANGED calls
        /\ seen' = (Ev.ev :> Count(seen, Ev.ev) + 1) @@ seen

Table(t) == [s \in {t[k][1] : k \in 1..Len(t)} |->
               (CHOOSE k \in 1..Len(t) : t[k][1] = s) ]
Read(t) == LET w == Table(t) IN [s \in DOMAIN w |-> t[w[s]][2]]
More(s) == Count(Read(Ev.calls), s) - Count(calls, s)
Kept(ss) == \A s \in ss : More(s) = 0
SetupSections == {Setups[k] : k \in DOMAIN Setups}
ApplySections == Sections \ SetupSections
TOver ==
  /\ l <= Len(Trace) /\ Ev.ev \in {"Setup", "Apply"} /\ l' = l + 1
  /\ \/ Plainly
     \/ /\ Again
        \* no section is left open, whichever way it ended
        /\ Ev.open = <<>> /\ open' = <<>>
        /\ calls' = Read(Ev.calls) /\ seen' = <<>>
        /\ IF Ev.ev = "Setup"
           THEN /\ More("Setup") \in (IF Ev.how = "ok" THEN {1} ELSE {0, 1})
                /\ Kept(ApplySections)
                /\ \A k \in DOMAIN Setups \ {"Operator"} :
                     More(Setups[k]) = Count(seen, k)
           ELSE /\ More("Apply") = 1 /\ Kept(SetupSections)
                /\ More("Apply: coarsest level") = Count(seen, "C")
                \* every level but the coarsest restricts once
                /\ More("Apply: fine levels") - Count(seen, "R")
                     \in (IF Ev.how = "ok" THEN {0} ELSE {0, 1})
TNext == TBegin \/ TWork \/ TOver
TSpec == TInit /\ [][TNext]_vars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
