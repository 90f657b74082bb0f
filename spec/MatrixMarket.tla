---------------------------- MODULE MatrixMarket ----------------------------
(* Matrices and vectors spread over processors, written to text files: the
   first processor writes the head, then the lines of every processor as they
   are gathered.  Indices in a file start at 1.

   An object is [kind |-> "matrix" or "vector", m, n |-> sizes,
                 val |-> entries (sequence of <<i, j, v>>, indices from 0)];
   a file is [head |-> sizes, body |-> lines].  The head of a matrix also has
   the number of lines; a vector lists all its values in order, one a line.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  files,  \* what is in the files: name -> file
  meant,  \* what was last written to each: name -> object
  job     \* the running output: [on, name, obj, todo (processors left)]
mmVars == <<files, meant, job>>

Nothing == [on |-> FALSE]
Range(s) == {s[k] : k \in DOMAIN s}
Where(e) == <<e[1], e[2]>>
NonZero(o) == {e \in Range(o.val) : e[3] # 0}

\* ---- what a file says, read on its own
Read(f, kind) ==
  IF kind = "matrix"
  THEN {<<e[1] - 1, e[2] - 1, e[3]>> : e \in {e \in Range(f.body) : e[3] # 0}}
  ELSE {<<k - 1, 0, f.body[k][1]>> : k \in {k \in DOMAIN f.body : f.body[k][1] # 0}}

Shape(o, f) ==
  IF o.kind = "matrix"
  THEN /\ f.head = <<o.m, o.n, Len(f.body)>>
       /\ \A e \in Range(f.body) : Len(e) = 3 /\ e[1] \in 1..o.m /\ e[2] \in 1..o.n
       \* no position twice
       /\ Cardinality({Where(e) : e \in Range(f.body)}) = Len(f.body)
  ELSE /\ f.head = <<o.m, 1>> /\ Len(f.body) = o.m
       /\ \A e \in Range(f.body) : Len(e) = 1

Faithful(o, f) == Shape(o, f) /\ Read(f, o.kind) = NonZero(o)

-----------------------------------------------------------------------------
MMInit == files = <<>> /\ meant = <<>> /\ job = Nothing

\* the processors in order have rows[p] (a set of rows) each
Open(name, obj, rows) ==
  /\ ~job.on
  /\ job' = [on |-> TRUE, name |-> name, obj |-> obj, todo |-> rows]
  /\ files' = (name :> [head |-> IF obj.kind = "matrix"
                                 THEN <<obj.m, obj.n, Len(obj.val)>> ELSE <<obj.m, 1>>,
                        body |-> <<>>]) @@ files
  /\ UNCHANGED meant
\* the lines of one processor, in the order of its rows
Mine(obj, rows) == SelectSeq(obj.val, LAMBDA e : e[1] \in rows)
Line(kind, e) == IF kind = "matrix" THEN <<e[1] + 1, e[2] + 1, e[3]>> ELSE <<e[3]>>
Gather ==
  /\ job.on /\ job.todo # <<>>
  /\ LET mine == Mine(job.obj, Head(job.todo)) IN
       files' = [files EXCEPT ![job.name].body =
                   @ \o [k \in 1..Len(mine) |-> Line(job.obj.kind, mine[k])]]
  /\ job' = [job EXCEPT !.todo = Tail(@)]
  /\ UNCHANGED meant
Close ==
  /\ job.on /\ job.todo = <<>>
  /\ meant' = (job.name :> job.obj) @@ meant
  /\ job' = Nothing /\ UNCHANGED files

\* one output as a whole, as seen from outside
Wrote(name, obj, after) ==
  /\ ~job.on
  /\ files' = after /\ meant' = (name :> obj) @@ meant
  /\ UNCHANGED job

-----------------------------------------------------------------------------
\* Properties
Settled == {f \in DOMAIN meant : job.on => f # job.name}
AllFaithful == \A f \in Settled : Faithful(meant[f], files[f])
\* an output changes no other file
OthersKept == [][\A f \in DOMAIN files :
                   (IF job'.on THEN f # job'.name ELSE job.on => f # job.name)
                     => files'[f] = files[f]]_mmVars
=============================================================================
