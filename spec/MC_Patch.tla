------------------------------ MODULE MC_Patch ------------------------------
(* Every selection of the cells of small lattices of squares with bilinear
   elements and with one more unknown per cell, in every order.               *)
EXTENDS Patch
CONSTANTS MaxW, MaxH
Vert(w, i, j) == j * (w + 1) + i
Lattice(w, h, inner) ==
  [c \in 1..(w * h) |->
     LET i == (c - 1) % w IN LET j == (c - 1) \div w IN
     LET vs == <<Vert(w, i, j), Vert(w, i + 1, j), Vert(w, i, j + 1),
                 Vert(w, i + 1, j + 1)>> IN
     [v |-> vs,
      f |-> <<IF i = 0 THEN -2 ELSE c - 1, IF i = w - 1 THEN -3 ELSE c + 1,
              IF j = 0 THEN -4 ELSE c - w, IF j = h - 1 THEN -1 ELSE c + w>>,
      d |-> vs \o (IF inner THEN <<100 + c>> ELSE <<>>)]]
MCInit ==
  /\ \E w \in 1..MaxW, h \in 1..MaxH, inner \in BOOLEAN : mesh = Lattice(w, h, inner)
  /\ sel \in SUBSET (1..Len(mesh))
  /\ Init0
MCSpec == MCInit /\ [][Next]_vars
=============================================================================
