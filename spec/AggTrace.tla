------------------------------ MODULE AggTrace ------------------------------
(* What one processor's cells ended up in, over a history of operations on one
   mesh.  Want says which of the properties this run decides.                 *)
EXTENDS Agglomerate, Json, IOUtils
CONSTANT Want
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, v, at, pos, memo, cur
tvars == <<vars, l, v, at, pos, memo, cur>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
ViewOf(e) ==
  [dim |-> e.dim, own |-> e.own, fwd |-> e.fwd,
   verts |-> TLCEval([c \in 1..Len(e.own) |-> Range(e.verts[c])])]
Machine == UNCHANGED vars
NeedAt == "boundary" \in Want
Load(e) == v = ViewOf(e)
TInit ==
  /\ mesh = 0 /\ size = 0 /\ idx = 0 /\ n = 0 /\ garbage = 0
  /\ l = 2 /\ Trace[1].ev = "Mesh"
  /\ v = ViewOf(Trace[1])
  /\ at = IF NeedAt THEN CellsAt(ViewOf(Trace[1])) ELSE <<>>
  /\ pos = IF Trace[1].lattice = 1 THEN Trace[1].pos ELSE <<>>
  /\ memo = {} /\ cur = <<>>
TMesh ==
  /\ Is("Mesh") /\ Machine
  /\ v' = ViewOf(Ev)
  /\ at' = IF NeedAt THEN CellsAt(ViewOf(Ev)) ELSE <<>>
  /\ pos' = IF Ev.lattice = 1 THEN Ev.pos ELSE <<>>
  /\ memo' = {} /\ cur' = <<>>
\* what these parameters give on a mesh nobody has touched
TFresh ==
  /\ Is("Fresh") /\ Machine
  /\ memo' = {r \in memo : r[1] # Ev.key} \cup {<<Ev.key, Ev.how, Ev.n, Ev.id>>}
  /\ UNCHANGED <<v, at, pos, cur>>
PartitionOk == Ev.how = "ok" /\ IsPartition(v, Ev.n, Ev.id)
BlockOk ==
  /\ Ev.how = "ok"
  /\ Blocks(v, Ev.size) = <<Ev.n, Ev.id>>
  /\ pos # <<>> => Tiles(v, pos, Ev.size, Ev.id)
HistoryOk == \A r \in memo : r[1] = Ev.key => r = <<Ev.key, Ev.how, Ev.n, Ev.id>>
TAgg ==
  /\ Is("Agg") /\ Machine
  /\ "partition" \in Want => (PartitionOk = TRUE)
  /\ ("block" \in Want /\ Ev.block) => (BlockOk = TRUE)
  /\ "history" \in Want => (HistoryOk = TRUE)
  /\ cur' = IF Ev.how = "ok" THEN <<Ev.n, Ev.id>> ELSE <<>>
  /\ UNCHANGED <<v, at, pos, memo>>
BoundaryOk ==
  LET k == cur[1] IN
  /\ Len(Ev.interior) = k /\ Len(Ev.halo) = k
  /\ \A a \in 1..k :
       /\ Ascending(Ev.interior[a]) /\ Ascending(Ev.halo[a])
       /\ {c + 1 : c \in Range(Ev.interior[a])} = Inner(v, at, cur[2], a)
       /\ {c + 1 : c \in Range(Ev.halo[a])} = Halo(v, at, cur[2], a)
  /\ Ev.id = cur[2]     \* and the agglomerates are left as they were
TBoundary ==
  /\ Is("Boundary") /\ Machine
  /\ "boundary" \in Want => (BoundaryOk = TRUE)
  /\ UNCHANGED <<v, at, pos, memo, cur>>
\* writing the agglomerates out: every processor's piece is there and listed
Piece(e, r) == e.base \o ToString(r) \o ".vtu"
OutputOk ==
  /\ Ev.how = "ok"
  /\ Range(Ev.files) = {Piece(Ev, r) : r \in 0..(Ev.ranks - 1)} \cup {Ev.base \o ".pvtu"}
  /\ Len(Ev.pieces) = Ev.ranks
  /\ Range(Ev.pieces) = {Piece(Ev, r) : r \in 0..(Ev.ranks - 1)}
  /\ cur # <<>> => Ev.id = cur[2]
TOutput ==
  /\ Is("Output") /\ Machine
  /\ "output" \in Want => (OutputOk = TRUE)
  /\ UNCHANGED <<v, at, pos, memo, cur>>
TSpec == TInit /\ [][TMesh \/ TFresh \/ TAgg \/ TBoundary \/ TOutput]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
