--------------------------- MODULE MC_Agglomerate ---------------------------
(* Every mesh view of up to MaxN cells, in line with the axes or not: any
   neighbour in any direction, any owner, any block size, any leftovers.      *)
EXTENDS Agglomerate
CONSTANTS MaxN, MaxSize
Views ==
  UNION {[dim : {2}, own : [1..k -> {1, 2}],
          fwd : [1..k -> [1..2 -> 0..k]], verts : {[c \in 1..k |-> {}]}]
         : k \in 0..MaxN}
MCInit ==
  /\ mesh \in Views
  /\ size \in [1..2 -> 1..MaxSize]
  /\ idx \in {[c \in Cells(mesh) |-> g] : g \in {0, 1}}
  /\ n = -1 /\ garbage = TRUE
MCSpec == MCInit /\ [][Next]_vars /\ WF_vars(Next)
AgreesWithFunction == Finished => Blocks(mesh, size) = <<n, idx>>
Termination == <>Finished
\* meshes in line with the axes: W x H cells, in rows
Lattice(w, h) ==
  [dim |-> 2, own |-> [c \in 1..(w * h) |-> 1],
   fwd |-> [c \in 1..(w * h) |->
             <<IF c % w = 0 THEN 0 ELSE c + 1, IF c + w > w * h THEN 0 ELSE c + w>>],
   verts |-> [c \in 1..(w * h) |-> {}]]
Pos(w, h) == [c \in 1..(w * h) |-> <<(c - 1) % w, (c - 1) \div w>>]
ASSUME LatticesAreTiled ==
  \A w \in 1..5, h \in 1..5, sx \in 1..4, sy \in 1..4 :
    LET b == Blocks(Lattice(w, h), <<sx, sy>>) IN
    /\ Tiles(Lattice(w, h), Pos(w, h), <<sx, sy>>, b[2])
    /\ b[1] = ((w + sx - 1) \div sx) * ((h + sy - 1) \div sy)
    /\ IsPartition(Lattice(w, h), b[1], b[2])
=============================================================================
