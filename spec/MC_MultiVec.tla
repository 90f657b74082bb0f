----------------------------- MODULE MC_MultiVec ------------------------------
(* The operations as the library carries them out, one column after the other on
   the heap, against their meaning, for every way the operands can share vectors. *)
EXTENDS MultiVec
VARIABLES op, a, b, m, al, be, heap, at
vars == <<op, a, b, m, al, be, heap, at>>

Places == 1..4
Start == <<<<1, 2>>, <<3, -1>>, <<-2, 5>>, <<0, 4>>>>
B == <<<<2, -1>>, <<1, 3>>>>
Pairs == {p \in Places \X Places : p[1] # p[2]}
Allowed(o, x, y, z) ==
  CASE o = "add"    -> InPlace(z, x) /\ InPlace(z, y)
    [] o = "times"  -> \A i \in 1..2, j \in 1..2 : z[i] # x[j]
    [] o = "assign" -> InPlace(z, x)
    [] OTHER        -> TRUE
Init ==
  /\ op \in {"add", "times", "assign", "scale"}
  /\ a \in Pairs /\ b \in Pairs /\ m \in Pairs
  /\ Allowed(op, a, b, m)
  /\ al \in -1..2 /\ be \in -1..2
  /\ heap = Start /\ at = 1
Column(h, c) ==
  CASE op = "add" ->
         IF m[c] = b[c] THEN [h EXCEPT ![m[c]] = Axpby(be, h[m[c]], al, h[a[c]])]
         ELSE LET h1 == [h EXCEPT ![m[c]] = h[a[c]]] IN
              [h1 EXCEPT ![m[c]] = Axpby(al, h1[m[c]], be, h1[b[c]])]
    [] op = "times" ->
         LET h0 == [h EXCEPT ![m[c]] = Axpby(be, h[m[c]], 0, h[m[c]])] IN
         LET h1 == [h0 EXCEPT ![m[c]] = Axpby(1, h0[m[c]], al * B[1][c], h0[a[1]])] IN
         [h1 EXCEPT ![m[c]] = Axpby(1, h1[m[c]], al * B[2][c], h1[a[2]])]
    [] op = "assign" -> [h EXCEPT ![m[c]] = h[a[c]]]
    [] OTHER -> [h EXCEPT ![m[c]] = Axpby(al, h[m[c]], 0, h[m[c]])]
Work == at <= 2 /\ heap' = Column(heap, at) /\ at' = at + 1
        /\ UNCHANGED <<op, a, b, m, al, be>>
Spec == Init /\ [][Work]_vars
Meaning ==
  CASE op = "add"    -> AddMv(Start, al, a, be, b, m)
    [] op = "times"  -> TimesMat(Start, al, a, B, be, m)
    [] op = "assign" -> Assign(Start, a, <<1, 2>>, m)
    [] OTHER         -> ScaleEach(Start, m, <<al, al>>)
Right == at = 3 => heap = Meaning
\* nothing else is touched
Frame == \A p \in Places : p \notin {m[1], m[2]} => heap[p] = Start[p]
=============================================================================
