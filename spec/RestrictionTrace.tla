-------------------------- MODULE RestrictionTrace --------------------------
(* Matrices assembled by the real code on all processors from recorded data.  *)
EXTENDS Restriction, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
tvars == <<vars, l>>
Ev == Trace[l]
Machine == UNCHANGED vars
Ok(e) ==
  LET cs == TLCEval([r \in 1..Len(e.ranks) |-> e.ranks[r].aggs]) IN
  LET known == UNION {Range(e.ranks[r].gdiag) : r \in 1..Len(e.ranks)} IN
  LET gd == TLCEval([g \in {k[1] : k \in known} |->
                      (CHOOSE k \in known : k[1] = g)[2]]) IN
  \A r \in 1..Len(e.ranks) :
    LET x == e.ranks[r] IN
    /\ RowsOk(cs, r, x.plain, gd, x.scale, Weighted)
    /\ RowsOk(cs, r, x.restr, gd, x.scale, Weighted)
    /\ RowsOk(cs, r, x.eigm, gd, x.scale, Plain)
    /\ RowsOk(cs, r, x.delta, gd, x.scale, Delta)
    /\ \A m \in {x.plain, x.restr, x.eigm, x.delta} :
         m.n = x.ndofs /\ m.domain = x.own
TInit ==
  /\ contrib = 0 /\ gdiag = 0 /\ told = 0 /\ start = 0 /\ at = 0 /\ matrix = 0
  /\ l = 2 /\ Trace[1].ev = "Begin"
TBegin == l <= Len(Trace) /\ Ev.ev = "Begin" /\ Machine /\ l' = l + 1
TAssembled ==
  /\ l <= Len(Trace) /\ Ev.ev = "Assembled" /\ Machine /\ l' = l + 1
  /\ Ok(Ev) = TRUE
TSpec == TInit /\ [][TBegin \/ TAssembled]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
