----------------------------- MODULE Agglomerate -----------------------------
(* Agglomeration of the cells of one processor's part of a mesh.

   A mesh view (what one processor sees) is a record
     dim    2 or 3
     own    own[c] = 1 for a locally owned cell, 2 for a ghost, 0 artificial
     fwd    fwd[c][d] = neighbour of c through the face in direction +d
            (0: that face is on the domain boundary, or not a cell of the view)
     verts  verts[c] = set of the vertices of c
   Cells are 1..Len(own) in mesh order.  An agglomeration is a sequence idx
   giving every cell its number, 0 for "none", and a count n.                 *)
EXTENDS LinAlg, SequencesExt

Cells(m) == 1..Len(m.own)
Owned(m) == {c \in Cells(m) : m.own[c] = 1}

-----------------------------------------------------------------------------
(* What an agglomeration must be, whatever built it.                          *)
NumbersOwned(m, n, idx) == \A c \in Owned(m) : idx[c] \in 1..n
NothingElse(m, idx) == \A c \in Cells(m) \ Owned(m) : idx[c] = 0
NoneEmpty(m, n, idx) == 1..n \subseteq {idx[c] : c \in Owned(m)}
IsPartition(m, n, idx) ==
  /\ Len(idx) = Len(m.own)
  /\ NumbersOwned(m, n, idx) /\ NothingElse(m, idx) /\ NoneEmpty(m, n, idx)

-----------------------------------------------------------------------------
(* Blocks.  A walk goes from owned cell to owned cell in one direction; the
   block of a cell is reached by walking in z, from there in y, from there
   in x.                                                                       *)
RECURSIVE Walk(_, _, _, _)
Walk(m, c, d, k) == \* the cells on a walk of at most k cells
  IF k <= 1 THEN {c}
  ELSE LET b == m.fwd[c][d] IN
       IF b = 0 THEN {c}
       ELSE IF m.own[b] # 1 THEN {c} ELSE {c} \cup Walk(m, b, d, k - 1)
Box(m, c, size) ==
  LET zs == IF m.dim = 3 THEN Walk(m, c, 3, size[3]) ELSE {c}
      ys == UNION {Walk(m, z, 2, size[2]) : z \in zs} IN
  UNION {Walk(m, y, 1, size[1]) : y \in ys}

(* The machine: start at the first owned cell without a number, give the cells
   of its block that have no number the next one.                             *)
VARIABLES mesh, size, idx, n, garbage
vars == <<mesh, size, idx, n, garbage>>
First(m, ix) ==
  LET free == {c \in Owned(m) : ix[c] = 0} IN
  IF free = {} THEN 0 ELSE CHOOSE c \in free : \A d \in free : c <= d
Clear == \* whatever was there before plays no role
  /\ n = -1
  /\ idx' = [c \in Cells(mesh) |-> 0] /\ n' = 0
  /\ UNCHANGED <<mesh, size, garbage>>
Grow ==
  /\ n >= 0 /\ First(mesh, idx) # 0
  /\ LET c == First(mesh, idx) IN
     LET box == Box(mesh, c, size) IN
       idx' = [d \in Cells(mesh) |-> IF d \in box /\ idx[d] = 0 THEN n + 1
                                     ELSE idx[d]]
  /\ n' = n + 1
  /\ UNCHANGED <<mesh, size, garbage>>
Next == Clear \/ Grow
Finished == n >= 0 /\ First(mesh, idx) = 0

Partition == Finished => IsPartition(mesh, n, idx)
\* no agglomerate is ever emptied again
Kept == n >= 0 => \A k \in 1..n : \E c \in Owned(mesh) : idx[c] = k
\* every agglomerate lies in the block of its first cell
InBlock ==
  n >= 0 => \A k \in 1..n :
    LET cs == {c \in Cells(mesh) : idx[c] = k} IN
    LET f == CHOOSE c \in cs : \A d \in cs : c <= d IN
    \E a \in cs : cs \subseteq Box(mesh, a, size)

(* The same as a function, for the traces of the real code.                   *)
RECURSIVE BlocksFrom(_, _, _, _)
BlocksFrom(m, sz, ix, k) ==
  LET c == First(m, ix) IN
  IF c = 0 THEN <<k, ix>>
  ELSE LET box == Box(m, c, sz) IN
       BlocksFrom(m, sz,
                  TLCEval([d \in Cells(m) |-> IF d \in box /\ ix[d] = 0 THEN k + 1
                                      ELSE ix[d]]), k + 1)
Blocks(m, sz) == BlocksFrom(m, sz, TLCEval([c \in Cells(m) |-> 0]), 0)

(* On one processor and a box of cells in line with the axes, pos[c] being the
   position of c on the lattice: the blocks tile the box.                     *)
Tile(p, sz, dim) == [d \in 1..dim |-> p[d] \div sz[d]]
Tiles(m, pos, sz, ix) ==
  \A a, b \in Cells(m) :
    (ix[a] = ix[b]) <=> (Tile(pos[a], sz, m.dim) = Tile(pos[b], sz, m.dim))

-----------------------------------------------------------------------------
(* Boundary agglomerates: the cells of an agglomerate that share a vertex with
   a cell outside of it, and those cells outside.                             *)
CellsAt(m) == \* vertex -> cells, computed once per mesh
  LET vs == UNION {m.verts[c] : c \in Cells(m)} IN
  TLCEval([v \in vs |-> {c \in Cells(m) : v \in m.verts[c]}])
Around(m, at, c) == UNION {at[v] : v \in m.verts[c]} \ {c}
Inner(m, at, ix, k) ==
  {c \in Owned(m) : ix[c] = k /\ \E d \in Around(m, at, c) : ix[d] # k \/ m.own[d] # 1}
Halo(m, at, ix, k) ==
  UNION {{d \in Around(m, at, c) : ix[d] # k \/ m.own[d] # 1} :
         c \in {e \in Owned(m) : ix[e] = k}}
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
=============================================================================
