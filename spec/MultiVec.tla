------------------------------ MODULE MultiVec -------------------------------
(* Blocks of vectors as the eigensolver library uses them.  Vectors lie in a heap;
   a block is a sequence of places in the heap, so that a view is a block which
   names the same places.  Indices of columns and rows count from 1.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Cols(heap, b) == [c \in 1..Len(b) |-> heap[b[c]]]
Contents(heap, blk) == [k \in 1..Len(blk) |-> Cols(heap, blk[k])]
Axpby(al, x, be, y) == TLCEval([r \in 1..Len(x) |-> al * x[r] + be * y[r]])
Dot(x, y) == FoldLeft(LAMBDA s, r : s + x[r] * y[r], 0, [r \in 1..Len(x) |-> r])
\* new contents for the columns of a block, everything else stays
Store(heap, b, val(_)) ==
  TLCEval([p \in 1..Len(heap) |->
    IF \E c \in 1..Len(b) : b[c] = p
    THEN val(CHOOSE c \in 1..Len(b) : b[c] = p) ELSE heap[p]])
Pick(b, ix) == [i \in 1..Len(ix) |-> b[ix[i]]]

(* ------------------------------- operations ------------------------------- *)
Fresh(heap, blk, cols) ==
  [heap |-> heap \o cols, blk |-> Append(blk, [c \in 1..Len(cols) |-> Len(heap) + c])]
Copied(heap, blk, k, ix) == Fresh(heap, blk, Cols(heap, Pick(blk[k], ix)))
Viewed(heap, blk, k, ix) == [heap |-> heap, blk |-> Append(blk, Pick(blk[k], ix))]
AddMv(heap, al, a, be, b, m) ==
  LET v(c) == Axpby(al, heap[a[c]], be, heap[b[c]]) IN Store(heap, m, v)
TimesMat(heap, al, a, B, be, m) ==
  LET v(j) == FoldLeft(LAMBDA s, k : Axpby(1, s, al * B[k][j], heap[a[k]]),
                       Axpby(be, heap[m[j]], 0, heap[m[j]]), [k \in 1..Len(a) |-> k])
  IN Store(heap, m, v)
ScaleEach(heap, m, al) == LET v(c) == Axpby(al[c], heap[m[c]], 0, heap[m[c]]) IN
                          Store(heap, m, v)
Assign(heap, a, ix, m) == LET v(i) == heap[a[i]] IN Store(heap, Pick(m, ix), v)
Fill(heap, m, al) == LET v(c) == [r \in 1..Len(heap[m[c]]) |-> al] IN Store(heap, m, v)
Put(heap, p, r, x) == [heap EXCEPT ![p][r] = x]
Products(heap, al, a, b) ==
  [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> al * Dot(heap[a[i]], heap[b[j]])]]
Dots(heap, a, b) == [i \in 1..Len(a) |-> Dot(heap[a[i]], heap[b[i]])]
\* x is 16 times the length of v, rounded
IsNorm(x, v) == LET q == 256 * Dot(v, v) IN
                /\ x >= 0 /\ (x = 0 \/ (x - 1) * (x - 1) <= q) /\ q <= (x + 1) * (x + 1)
Applied(heap, M, x, y) ==
  LET v(c) == [r \in 1..Len(M) |-> Dot(M[r], heap[x[c]])] IN Store(heap, y, v)

\* operands may be the result itself, column by column, but not otherwise overlap it
InPlace(m, a) == \A i \in 1..Len(m), j \in 1..Len(a) : m[i] = a[j] => i = j
=============================================================================
