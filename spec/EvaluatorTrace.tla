---------------------------- MODULE EvaluatorTrace ----------------------------
EXTENDS Evaluator, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rounds, guesses
tvars == <<l, rounds, guesses>>
Ev == Trace[l]
TInit == /\ l = 2 /\ Trace[1].ev = "Begin" /\ rounds = Trace[1].rounds /\ guesses = <<>>
TBegin == /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ l' = l + 1
          /\ rounds' = Ev.rounds /\ guesses' = <<>>
\* equal to every earlier guess for the same size and constraints
GuessEventOk(e) ==
  /\ GuessOk(e.n, e.fixed, e.zero, e.inside) /\ e.other = <<>>
  /\ \A k \in 1..Len(guesses) :
       guesses[k] = [n |-> e.n, fixed |-> Ids(e.fixed)] => k \in Ids(e.same)
TGuess ==
  /\ l <= Len(Trace) /\ Ev.ev = "Guess" /\ l' = l + 1 /\ UNCHANGED rounds
  /\ Len(Ev.ranks) = 1 /\ GuessEventOk(Ev.ranks[1]) = TRUE
  /\ guesses' = Append(guesses, [n |-> Ev.ranks[1].n, fixed |-> Ids(Ev.ranks[1].fixed)])
Shared(e) ==
  LET rs == e.ranks IN
  /\ \A r \in 1..Len(rs) : rs[r].n = rs[1].n /\ rs[r].size = rs[1].n /\ rs[r].mine = rs[r].owned
  /\ IsPartition([r \in 1..Len(rs) |-> rs[r].mine], rs[1].n)
TDiagonal ==
  /\ l <= Len(Trace) /\ Ev.ev = "Diagonal" /\ l' = l + 1 /\ UNCHANGED guesses
  /\ Shared(Ev) = TRUE
  /\ rounds # <<>>
  /\ \A r \in 1..Len(Ev.ranks) : LET e == Ev.ranks[r] IN
       /\ Ids(e.owned) \subseteq Ids(e.relevant)
       /\ DiagonalOk(Head(rounds).d, e.relevant, e.where, e.values) = TRUE
  /\ rounds' = Tail(rounds)
TRange ==
  /\ l <= Len(Trace) /\ Ev.ev = "Range" /\ l' = l + 1 /\ UNCHANGED <<rounds, guesses>>
  /\ rounds = <<>> /\ Shared(Ev) = TRUE
  /\ \A r \in 1..Len(Ev.ranks) : Ev.ranks[r].m = Ev.ranks[r].n /\ Ev.ranks[r].nonzero = 0
TSpec == TInit /\ [][TBegin \/ TGuess \/ TDiagonal \/ TRange]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
