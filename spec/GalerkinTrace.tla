---------------------------- MODULE GalerkinTrace ----------------------------
(* Hierarchies and restrictors set up by the real library, all processors.

   Begin carries what is expected of the scenario:
     levels, fast   the configuration in effect
     extra          allowance for an iterative eigensolver, in 2^-20 units
     neig           eigenvectors per agglomerate
     solvable       FALSE: the coarse matrix may be singular
     same           all set-ups of the scenario must give the same restriction *)
EXTENDS Galerkin, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, conf, first
vars == <<l, conf, first>>
Ev == Trace[l]
Field(e, f) == [p \in 1..Len(e.ranks) |-> e.ranks[p][f]]
Has(e, f) == \A p \in 1..Len(e.ranks) : f \in DOMAIN e.ranks[p]

\* two set-ups of the same restrictor: equal up to round-off
SameRows(x, y, tol) ==
  /\ DOMAIN x = DOMAIN y
  /\ \A i \in DOMAIN x : \A j \in DOMAIN x[i] \cup DOMAIN y[i] :
       Near(At(x, i, j), At(y, i, j), tol)

AggsOf(cells) == SortSeq(SetToSeq({cells[k].agg : k \in 1..Len(cells)} \ {0}),
                         LAMBDA a, b : a < b)
\* the agglomerates of each processor in order, neig rows each
RowsPlaced(e, r, rr, em) ==
  LET cells == Field(e, "cells") IN
  LET d == e.ranks[1].dim IN LET mass == e.ranks[1].mass IN
  LET all == TLCEval(AllDiag(cells, d, mass)) IN
  \A p \in 1..Len(e.ranks) :
    LET aggs == AggsOf(cells[p]) IN
    /\ aggs = [k \in 1..Len(aggs) |-> k]
    /\ Len(r[p].ids) = conf.neig * Len(aggs)
    /\ \A a \in 1..Len(aggs) :
         LET own == TLCEval(OwnDiag(cells[p], a, d, mass)) IN
         \A k \in 1..conf.neig :
           LET row == r[p].ids[(a - 1) * conf.neig + k] IN
           WeightsOk(rr[row], em[row], own, all, 2)
\* the global diagonal is the sum over all cells (away from constraints)
DiagOk(e, a) ==
  LET all == TLCEval(AllDiag(Field(e, "cells"), e.ranks[1].dim, e.ranks[1].mass)) IN
  \A i \in DOMAIN a :
    (Cardinality(DOMAIN a[i]) > 1) => a[i][i] = all[i]

HierarchyOk(e) ==
  /\ \A p \in 1..Len(e.ranks) :
       LET x == e.ranks[p] IN
       /\ x.how = "ok" \/ (~conf.solvable /\ "on" \in DOMAIN x)
       /\ IF conf.levels = 1
          THEN x.smoothers = <<>> /\ x.on = "fine" /\ ~x.fast
          ELSE x.smoothers = <<"fine">> /\ x.on = "coarse" /\ x.fast = conf.fast
  /\ conf.levels = 2 =>
       LET a == TLCEval(Fn(Field(e, "A"))) IN
       LET rs == Field(e, "R") IN LET aps == Field(e, "AP") IN
       LET acs == Field(e, "Ac") IN
       /\ WellDistributed(rs) /\ WellDistributed(aps) /\ WellDistributed(acs)
       /\ \A p \in 1..Len(e.ranks) :
            LET own == e.ranks[p].own IN
            /\ rs[p].dom = own /\ rs[p].n = e.ranks[p].ndofs
            /\ aps[p].ids = own /\ aps[p].dom = rs[p].ids
            /\ acs[p].ids = rs[p].ids /\ acs[p].dom = rs[p].ids
       /\ LET r == TLCEval(Fn(rs)) IN LET ap == TLCEval(Fn(aps)) IN
          LET ac == TLCEval(Fn(acs)) IN
          /\ ProductOk(a, r, ap, conf.extra)
          /\ CoarseOk(r, ap, ac)
          /\ \A i \in DOMAIN r : DOMAIN r[i] # {}   \* no row is lost
RestrictorOk(e) ==
  /\ \A p \in 1..Len(e.ranks) : e.ranks[p].how = "ok"
  /\ LET a == TLCEval(Fn(Field(e, "A"))) IN
     LET rs == Field(e, "R") IN LET es == Field(e, "E") IN
     LET r == TLCEval(Fn(rs)) IN LET em == TLCEval(Fn(es)) IN
     /\ WellDistributed(rs) /\ WellDistributed(es)
     /\ \A p \in 1..Len(e.ranks) :
          /\ rs[p].dom = e.ranks[p].own /\ es[p].ids = rs[p].ids
          /\ es[p].dom = rs[p].dom
          /\ Len(e.ranks[p].values) = Len(rs[p].ids)
     /\ DiagOk(e, a)
     /\ RowsPlaced(e, rs, r, em)
     /\ Has(e, "plain") =>
          /\ \A p \in 1..Len(e.ranks) : e.ranks[p].plain.ids = rs[p].ids
          /\ SameRows(Fn(Field(e, "plain")), r, 2 + conf.extra)

Allowed(e) == IF Has(e, "E") THEN RestrictorOk(e) ELSE HierarchyOk(e)

Nothing == <<>>
TInit ==
  /\ l = 2 /\ Trace[1].ev = "Begin" /\ conf = Trace[1] /\ first = Nothing
TBegin ==
  /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ conf' = Ev /\ first' = Nothing /\ l' = l + 1
TSetup ==
  /\ l <= Len(Trace) /\ Ev.ev = "Setup" /\ l' = l + 1 /\ UNCHANGED conf
  /\ Allowed(Ev) = TRUE
  /\ IF ~conf.same THEN UNCHANGED first
     ELSE LET now == [R |-> Fn(Field(Ev, "R")),
                      X |-> IF Has(Ev, "E") THEN Fn(Field(Ev, "E"))
                            ELSE Fn(Field(Ev, "AP"))] IN
          IF first = Nothing THEN first' = now
          ELSE /\ UNCHANGED first
               /\ SameRows(now.R, first.R, 2) /\ SameRows(now.X, first.X, 60)
TSpec == TInit /\ [][TBegin \/ TSetup]_vars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
