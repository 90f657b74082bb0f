---------------------------- MODULE ConvergeTrace ----------------------------
(* Applications of hierarchies set up by the real library, all processors.

   Begin: symmetric  the smoother is symmetric
          energy     the energy of the error must not grow
          standalone the hierarchy is not in preconditioner mode
   A second Ready in a scenario is the same problem on other processors: every
   result must be the first one's, place by place.                             *)
EXTENDS Converge, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, sys, memo, done
tvars == <<l, conf, sys, memo, done>>
Ev == Trace[l]
Field(e, f) == [p \in 1..Len(e.ranks) |-> e.ranks[p][f]]
Of(e, f) == Joined(sys.own, Field(e, f))
TInit ==
  /\ l = 2 /\ Trace[1].ev = "Begin" /\ conf = Trace[1] /\ sys = <<>> /\ memo = <<>>
  /\ done = 0
TBegin ==
  /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ conf' = Ev /\ l' = l + 1
  /\ sys' = <<>> /\ memo' = <<>> /\ done' = 0
ReadyOk(e) ==
  /\ \A p \in 1..Len(e.ranks) : e.ranks[p].how = "ok"
  /\ Partition(Field(e, "own"), e.ranks[1].ndofs)
  /\ WellDistributed(Field(e, "A"))
TReady ==
  /\ l <= Len(Trace) /\ Ev.ev = "Ready" /\ l' = l + 1 /\ UNCHANGED <<conf, memo>>
  /\ ReadyOk(Ev) = TRUE
  /\ sys' = [own |-> Field(Ev, "own"), a |-> Fn(Field(Ev, "A")), at |-> <<>>,
             spots |-> Joined(Field(Ev, "own"), Field(Ev, "spots")),
             run |-> IF sys = <<>> THEN 1 ELSE sys.run + 1]
  /\ done' = 0
Result(e) == [spots |-> sys.spots, y1 |-> Of(e, "y1"), y12 |-> Of(e, "y12")]
LinearEventOk(e) ==
  LET b1 == Of(e, "b1") IN LET b2 == Of(e, "b2") IN
  LET y1 == Of(e, "y1") IN LET y2 == Of(e, "y2") IN
  /\ LinearOk(y1, y2, Of(e, "y12"))
  /\ conf.symmetric => SymmetricOk(b1, b2, y1, y2)
  /\ sys.run > 1 =>
       LET m == memo[done + 1] IN
       /\ SameField(m.spots, m.y1, sys.spots, y1, 2)
       /\ SameField(m.spots, m.y12, sys.spots, Of(e, "y12"), 2)
TLinear ==
  /\ l <= Len(Trace) /\ Ev.ev = "Linear" /\ l' = l + 1 /\ UNCHANGED <<conf, sys>>
  /\ LinearEventOk(Ev) = TRUE
  /\ memo' = (IF sys.run = 1 THEN Append(memo, Result(Ev)) ELSE memo)
  /\ done' = done + 1
TFixed ==
  /\ l <= Len(Trace) /\ Ev.ev = "Fixed" /\ l' = l + 1
  /\ UNCHANGED <<conf, sys, memo, done>>
  /\ conf.standalone /\ FixedOk(Of(Ev, "x"), Of(Ev, "y"), 16384) = TRUE
IterateOk(e) ==
  LET x == Of(e, "x") IN
  LET xs == Field(e, "xs") IN
  LET err(k) == LET f == Joined(sys.own, [p \in 1..Len(xs) |-> xs[p][k]]) IN
                TLCEval([g \in DOMAIN f |-> f[g] - 64 * x[g]]) IN
  conf.energy => \A k \in 1..(Len(xs[1]) - 1) : NoGrowth(sys.a, err(k), err(k + 1))
TIterate ==
  /\ l <= Len(Trace) /\ Ev.ev = "Iterate" /\ l' = l + 1
  /\ UNCHANGED <<conf, sys, memo, done>>
  /\ IterateOk(Ev) = TRUE
TSpec == TInit /\ [][TBegin \/ TReady \/ TLinear \/ TFixed \/ TIterate]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
