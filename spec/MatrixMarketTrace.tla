------------------------- MODULE MatrixMarketTrace --------------------------
(* Files the real library wrote, read back by the first processor after every
   output, against MatrixMarket.                                              *)
EXTENDS MatrixMarket, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1

TInit == l = 2 /\ Trace[1].ev = "Begin" /\ MMInit
TBegin == /\ Is("Begin")
          /\ files' = <<>> /\ meant' = <<>> /\ job' = Nothing

File(f) == [head |-> f.head, body |-> f.body]
After(e) == LET fs == e.ranks[1].files IN
  [x \in {fs[k].name : k \in 1..Len(fs)} |->
     File(CHOOSE f \in Range(fs) : f.name = x)]
\* what kind of object the first line of the file announces
Banner(e, o) ==
  \A f \in Range(e.ranks[1].files) :
     f.name = e.ranks[1].name =>
       f.banner = IF o.kind = "matrix"
                  THEN "%%MatrixMarket matrix coordinate real general"
                  ELSE "%%MatrixMarket matrix array real general"
TWrote ==
  /\ Is("Wrote")
  /\ \A r \in Range(Ev.ranks) : r.how = "ok"
  /\ LET r == Ev.ranks[1]
         o == [kind |-> r.kind, m |-> r.m, n |-> r.n, val |-> r.val]
         after == After(Ev)
     IN /\ r.name \in DOMAIN after
        /\ Wrote(r.name, o, after)
        /\ Faithful(o, after[r.name]) = TRUE
        /\ Banner(Ev, o) = TRUE
        /\ \A f \in DOMAIN files : f # r.name => f \in DOMAIN after /\ after[f] = files[f]
TNext == TBegin \/ TWrote
TSpec == TInit /\ [][TNext]_<<mmVars, l>>
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
