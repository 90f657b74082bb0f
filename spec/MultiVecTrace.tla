---------------------------- MODULE MultiVecTrace -----------------------------
(* Programs of calls on the real blocks of vectors.  Every event carries, in all,
   the contents of every block after the call.                                  *)
EXTENDS MultiVec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, blk
tvars == <<l, heap, blk>>
Ev == Trace[l]
TInit == l = 2 /\ Trace[1].ev = "Begin" /\ heap = <<>> /\ blk = <<>>
TBegin == l <= Len(Trace) /\ Ev.ev = "Begin" /\ l' = l + 1 /\ heap' = <<>> /\ blk' = <<>>
Shape(cols, n, size) == Len(cols) = n /\ \A c \in 1..n : Len(cols[c]) = size
Rows(e, k) == Len(heap[blk[k][1]])
\* values in [0, 1), in 2^-20, different columns; what is kept of them is 16 times
\* the value, rounded down
RandomOk(e, m) ==
  /\ Len(e.raw) = Len(m)
  /\ \A c \in 1..Len(m) : \A r \in 1..Len(e.raw[c]) : e.raw[c][r] \in 0..1048576
  /\ \A c \in 1..Len(m), d \in 1..Len(m) : (c < d) => e.raw[c] # e.raw[d]
  /\ \A c \in 1..Len(m) : Len(e.raw[c]) > 2 => Cardinality(ToSet(e.raw[c])) > 1
After(e) ==
  LET new == Len(blk) + 1 IN
  CASE e.op \in {"new", "clone"} -> Fresh(heap, blk, e.all[new])
    [] e.op = "copy" -> Copied(heap, blk, e.of, e.ix)
    [] e.op = "view" -> Viewed(heap, blk, e.of, e.ix)
    [] OTHER ->
       [blk |-> blk, heap |->
         CASE e.op = "poke"   -> Put(heap, blk[e.m][e.c], e.r, e.x)
           [] e.op = "add"    -> AddMv(heap, e.al, blk[e.a], e.be, blk[e.b], blk[e.m])
           [] e.op = "times"  -> TimesMat(heap, e.al, blk[e.a], e.B, e.be, blk[e.m])
           [] e.op = "scale"  -> ScaleEach(heap, blk[e.m], e.al)
           [] e.op = "set"    -> Assign(heap, blk[e.a], e.ix, blk[e.m])
           [] e.op = "init"   -> Fill(heap, blk[e.m], e.x)
           [] e.op = "apply"  -> Applied(heap, e.M, blk[e.a], blk[e.m])
           [] e.op = "random" -> LET v(c) == [r \in 1..Len(e.raw[c]) |-> e.raw[c][r] \div 65536]
                                 IN Store(heap, blk[e.m], v)
           [] OTHER -> heap]
Answer(e) ==
  CASE e.op = "new"    -> Shape(e.all[Len(blk) + 1], e.n, e.size)
    [] e.op = "clone"  -> Shape(e.all[Len(blk) + 1], e.n, Rows(e, e.of))
    [] e.op = "trans"  -> e.ret = Products(heap, e.al, blk[e.a], blk[e.b])
    [] e.op = "dot"    -> e.ret = Dots(heap, blk[e.a], blk[e.b])
    [] e.op = "norm"   -> /\ Len(e.ret) = Len(blk[e.m])
                          /\ \A c \in 1..Len(e.ret) : IsNorm(e.ret[c], heap[blk[e.m][c]])
    [] e.op = "size"   -> e.ret = <<Rows(e, e.m), Len(blk[e.m]), Rows(e, e.m), Len(blk[e.m])>>
    [] e.op = "random" -> RandomOk(e, blk[e.m])
    [] e.op = "assign" -> e.ret = "throw"
    [] OTHER -> TRUE
TOp ==
  /\ l <= Len(Trace) /\ Ev.ev = "Op" /\ l' = l + 1
  /\ Answer(Ev) = TRUE
  /\ LET n == After(Ev) IN
     /\ Contents(n.heap, n.blk) = Ev.all
     /\ heap' = n.heap /\ blk' = n.blk
TSpec == TInit /\ [][TBegin \/ TOp]_tvars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
