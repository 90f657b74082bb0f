-------------------------------- MODULE Patch --------------------------------
(* Patches: a selection of a mesh's cells copied into a mesh of its own, and
   the map of the copy's degrees of freedom.

   A cell is a record
     v   its vertices, in the order of the reference cell
     f   what is behind its faces: the number of a cell, or -1-b on a boundary
         with the id b
     d   its degrees of freedom, in the order of the reference cell
   A mesh is a sequence of cells; `to` names the original of every cell of a
   patch, `dofs` the original of every degree of freedom (numbered from 0).   *)
EXTENDS LinAlg, SequencesExt

-----------------------------------------------------------------------------
(* What a patch must be.                                                      *)
OneToOne(to, sel) ==
  /\ Len(to) = Cardinality(sel)
  /\ Range(to) = sel
SameVertices(m, p, to) == \A c \in 1..Len(p) : p[c].v = m[to[c]].v
SameFaces(m, p, to, sel) ==
  \A c \in 1..Len(p) : \A i \in 1..Len(p[c].f) :
    LET g == m[to[c]].f[i] IN
    LET q == p[c].f[i] IN
    IF g < 0 THEN q = g                    \* the domain's boundary keeps its id
    ELSE IF g \in sel THEN q \in 1..Len(p) /\ to[q] = g
    ELSE q = -1                            \* cut: boundary id 0
Written(p) == UNION {Range(p[c].d) : c \in 1..Len(p)}
SameDofs(m, p, to, dofs) ==
  /\ Written(p) = 0..(Len(dofs) - 1)
  /\ \A c \in 1..Len(p) :
       /\ Len(p[c].d) = Len(m[to[c]].d)
       /\ \A i \in 1..Len(p[c].d) : dofs[p[c].d[i] + 1] = m[to[c]].d[i]
  /\ Cardinality(Range(dofs)) = Len(dofs)
Faithful(m, sel, p, to, dofs) ==
  /\ Len(p) = Len(to)
  /\ OneToOne(to, sel) /\ SameVertices(m, p, to) /\ SameFaces(m, p, to, sel)
  /\ SameDofs(m, p, to, dofs)

-----------------------------------------------------------------------------
(* The machine: cells are copied one at a time, in any order; boundary ids come
   last; degrees of freedom are numbered as they are met and every cell writes
   the originals of all of its own into the map.                              *)
VARIABLES mesh, sel, patch, to, dofs, number, phase
vars == <<mesh, sel, patch, to, dofs, number, phase>>
Init0 == patch = <<>> /\ to = <<>> /\ dofs = <<>> /\ number = <<>> /\ phase = "copy"
Copy(c) ==
  /\ phase = "copy" /\ c \in sel \ Range(to)
  /\ to' = Append(to, c)
  /\ patch' = Append(patch, [v |-> mesh[c].v, f |-> <<>>, d |-> <<>>])
  /\ UNCHANGED <<mesh, sel, dofs, number, phase>>
Place(c) == CHOOSE q \in 1..Len(to) : to[q] = c
Glue == \* all cells are there: faces of two of them join, the others are cut
  /\ phase = "copy" /\ Range(to) = sel
  /\ patch' = [c \in 1..Len(to) |->
       [patch[c] EXCEPT !.f = [i \in 1..Len(mesh[to[c]].f) |->
          LET g == mesh[to[c]].f[i] IN
          IF g > 0 /\ g \in sel THEN Place(g) ELSE IF g < 0 THEN g ELSE -1]]]
  /\ phase' = "number"
  /\ UNCHANGED <<mesh, sel, to, dofs, number>>
\* a degree of freedom of the copy is what sits at one point of the patch: here
\* named by its original, numbered in the order in which the cells meet it
Number ==
  /\ phase = "number" /\ Len(patch) > 0
  /\ \E c \in 1..Len(patch) :
       /\ patch[c].d = <<>>
       /\ LET orig == mesh[to[c]].d IN
          LET new == SelectSeq(orig, LAMBDA g : g \notin Range(number)) IN
          LET nb == number \o new IN
            /\ number' = nb
            /\ patch' = [patch EXCEPT ![c].d =
                 [i \in 1..Len(orig) |->
                    (CHOOSE k \in 1..Len(nb) : nb[k] = orig[i]) - 1]]
  /\ UNCHANGED <<mesh, sel, to, dofs, phase>>
Map ==
  /\ phase = "number" /\ \A c \in 1..Len(patch) : patch[c].d # <<>>
  /\ phase' = "done"
  /\ dofs' = [k \in 1..Len(number) |->
       LET cs == {c \in 1..Len(patch) : k - 1 \in Range(patch[c].d)} IN
       LET last == CHOOSE c \in cs : \A d \in cs : d <= c IN
       LET i == CHOOSE j \in 1..Len(patch[last].d) : patch[last].d[j] = k - 1 IN
       mesh[to[last]].d[i]]
  /\ UNCHANGED <<mesh, sel, patch, to, number>>
CopyAny == \E c \in sel : Copy(c)
Next == CopyAny \/ Glue \/ Number \/ Map
Ok == phase = "done" => Faithful(mesh, sel, patch, to, dofs)
\* an empty selection gives an empty patch
EmptyOk == (phase = "done" /\ sel = {}) => patch = <<>> /\ dofs = <<>>
=============================================================================
