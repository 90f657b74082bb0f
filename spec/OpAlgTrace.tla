----------------------------- MODULE OpAlgTrace -----------------------------
(* Programs of operator calls by the real library, all processors.              *)
EXTENDS OpAlg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, own, heap
vars == <<l, own, heap>>
Ev == Trace[l]
Procs(e) == 1..Len(e.ranks)
Arg(e) == e.ranks[1]
Rows(s) == UNION {Range(own[p][s]) : p \in DOMAIN own}

\* a vector spread over the processors like a space: everyone has exactly its part
Spread(vs, s) ==
  \A p \in DOMAIN vs : [k \in 1..Len(vs[p]) |-> vs[p][k][1]] = own[p][s]
Whole(vs) ==
  TLCEval(FoldLeft(LAMBDA f, v : f @@ [i \in {v[k][1] : k \in 1..Len(v)} |->
     LET k == CHOOSE k \in 1..Len(v) : v[k][1] = i IN v[k][2]], << >>, vs))
\* what the processors hold of matrix number h
Held(e, h) ==
  LET f(x, p) ==
    LET m == e.ranks[p].heap[h] IN
    x @@ [i \in Range(m.ids) |->
      LET k == CHOOSE k \in 1..Len(m.ids) : m.ids[k] = i IN
      LET row == m.rows[k] IN
      TLCEval([j \in {row[n][1] : n \in 1..Len(row)} |->
                 LET n == CHOOSE n \in 1..Len(row) : row[n][1] = j IN row[n][2]])]
  IN TLCEval(FoldLeft(f, << >>, [p \in Procs(e) |-> p]))
\* matrix number h is o, spread over the processors as it should be
Shape(e, h, o) ==
  \A p \in Procs(e) :
    LET m == e.ranks[p].heap[h] IN
    IF o.free THEN "free" \in DOMAIN m
    ELSE /\ "rows" \in DOMAIN m
         /\ m.ids = own[p][o.rs] /\ m.dom = own[p][o.cs]
         /\ m.m = Cardinality(Rows(o.rs)) /\ m.n = Cardinality(Rows(o.cs))
Unchanged(e) ==
  \A h \in 1..Len(heap) :
    Shape(e, h, heap[h]) /\ (heap[h].free \/ Held(e, h) = heap[h].a)

Obj(rs, cs, a, x) == [rs |-> rs, cs |-> cs, a |-> a, e |-> x, free |-> FALSE, n |-> -1]
\* the operator that a call has to produce
Produced(x) ==
  LET A == heap[x.j + 1] IN LET B == heap[x.k + 1] IN
  CASE x.op = "make" ->
         [Obj(x.rs + 1, x.cs + 1, FromEntries(Rows(x.rs + 1), x.entries), x.e)
            EXCEPT !.n = Cardinality({<<y[1], y[2]>> : y \in Range(x.entries)})]
    [] x.op = "transpose" -> Obj(A.cs, A.rs, Transpose(A.a, Rows(A.cs)), A.e)
    [] x.op = "multiply" -> Obj(A.rs, B.cs, Times(A.a, B.a), A.e + B.e)
    [] x.op \in {"multiply_transpose", "product"} ->
         Obj(A.rs, B.rs, TimesTransposed(A.a, B.a), A.e + B.e)
    [] x.op = "free" -> [A EXCEPT !.free = TRUE]
Drops(x) == x.op = "product" \/ (x.op = "multiply_transpose" /\ heap[x.j + 1].free)

Ys(e, f) == [p \in Procs(e) |-> e.ranks[p][f]]
ApplyOk(e) ==
  LET x == Arg(e) IN LET A == heap[x.j + 1] IN
  LET from == IF x.t = 1 THEN A.rs ELSE A.cs IN
  LET to == IF x.t = 1 THEN A.cs ELSE A.rs IN
  /\ \A p \in Procs(e) : e.ranks[p].same
  /\ Spread(Ys(e, "x"), from) /\ Spread(Ys(e, "y"), to)
  /\ Whole(Ys(e, "y")) =
       MatVec(IF x.t = 1 THEN Transpose(A.a, Rows(A.cs)) ELSE A.a, Whole(Ys(e, "x")))
VectorsOk(e) ==
  LET A == heap[Arg(e).j + 1] IN
  /\ Spread(Ys(e, "domain"), A.cs) /\ Spread(Ys(e, "range"), A.rs)
  /\ \A i \in Rows(A.cs) : Whole(Ys(e, "domain"))[i] = 0
  /\ \A i \in Rows(A.rs) : Whole(Ys(e, "range"))[i] = 0
  /\ \A p \in Procs(e) :
       LET x == e.ranks[p] IN
       /\ x.dsize = Cardinality(Rows(A.cs)) /\ x.rsize = Cardinality(Rows(A.rs))
       /\ A.free \/ x.grid = Cardinality(Rows(A.rs))
       /\ (A.free \/ A.n < 0) \/ x.entries = A.n
RowOk(e) ==
  LET x == Arg(e) IN LET A == heap[x.j + 1] IN
  /\ Spread(Ys(e, "y"), A.cs)
  /\ LET y == Whole(Ys(e, "y")) IN \A i \in DOMAIN y : y[i] = Val(A.a[x.row], i)
SerialOk(x) ==
  LET a == FromEntries(0..(x.m - 1), x.entries) IN
  LET b == IF x.t = 1 THEN Transpose(a, 0..(x.n - 1)) ELSE a IN
  LET f == [i \in 0..(Len(x.xv) - 1) |-> x.xv[i + 1]] IN
  LET y == MatVec(b, f) IN
  /\ x.xsize = (IF x.t = 1 THEN x.m ELSE x.n) /\ x.ysize = Cardinality(DOMAIN b)
  /\ Len(x.yv) = x.ysize /\ x.grid = x.m
  /\ \A i \in DOMAIN y : x.yv[i + 1] = y[i]

Makes == {"make", "transpose", "multiply", "multiply_transpose", "product", "free"}
TInit == l = 2 /\ Trace[1].ev = "Begin" /\ own = <<>> /\ heap = <<>>
TBegin ==
  /\ l <= Len(Trace) /\ Ev.ev = "Begin" /\ l' = l + 1 /\ own' = <<>> /\ heap' = <<>>
TSpaces ==
  /\ l <= Len(Trace) /\ Ev.ev = "Spaces" /\ l' = l + 1 /\ UNCHANGED heap
  /\ own' = [p \in Procs(Ev) |-> Ev.ranks[p].own]
Went(e) == \A p \in Procs(e) : e.ranks[p].how = "ok"
TMake ==
  /\ l <= Len(Trace) /\ Ev.ev = "Call" /\ Arg(Ev).op \in Makes /\ l' = l + 1
  /\ UNCHANGED own
  /\ Went(Ev) = TRUE
  /\ (\A p \in Procs(Ev) : Len(Ev.ranks[p].heap) = Len(heap) + 1) = TRUE
  /\ Unchanged(Ev) = TRUE
  /\ LET want == Produced(Arg(Ev)) IN LET h == Len(heap) + 1 IN
     /\ Shape(Ev, h, want) = TRUE
     /\ IF want.free THEN heap' = Append(heap, want)
        ELSE LET got == Held(Ev, h) IN
             /\ (IF Drops(Arg(Ev)) THEN UpToDrops(got, want.a, want.e)
                 ELSE got = want.a) = TRUE
             /\ heap' = Append(heap, [want EXCEPT !.a = got])
TUse ==
  /\ l <= Len(Trace) /\ Ev.ev = "Call" /\ Arg(Ev).op \notin Makes /\ l' = l + 1
  /\ UNCHANGED <<own, heap>>
  /\ Went(Ev) = TRUE
  /\ (\A p \in Procs(Ev) : Len(Ev.ranks[p].heap) = Len(heap)) = TRUE
  /\ Unchanged(Ev) = TRUE
  /\ (CASE Arg(Ev).op = "apply" -> ApplyOk(Ev)
        [] Arg(Ev).op = "vectors" -> VectorsOk(Ev)
        [] Arg(Ev).op = "row" -> RowOk(Ev)
        [] Arg(Ev).op = "serial" -> \A p \in Procs(Ev) : SerialOk(Ev.ranks[p])) = TRUE
TSpec == TInit /\ [][TBegin \/ TSpaces \/ TMake \/ TUse]_vars
TraceAccepted == TLCGet("stats").diameter = Len(Trace)
=============================================================================
