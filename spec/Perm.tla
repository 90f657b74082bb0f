-------------------------------- MODULE Perm ---------------------------------
(* Sorting two companion arrays by one permutation: the permutation orders the
   pairs (first array, then second array), and is applied to an array in place,
   one cycle of the permutation after the other.                              *)
EXTENDS LinAlg

IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n - 1)
\* p gives zero-based positions
Gather(p, v) == [i \in 1..Len(v) |-> v[p[i] + 1]]
PairLeq(a1, a2, b1, b2) == a1 < b1 \/ (a1 = b1 /\ a2 <= b2)
Sorts(p, v1, v2) ==
  /\ IsPerm(p, Len(v1))
  /\ \A i \in 1..(Len(v1) - 1) :
       PairLeq(v1[p[i] + 1], v2[p[i] + 1], v1[p[i + 1] + 1], v2[p[i + 1] + 1])

-----------------------------------------------------------------------------
(* The in-place application as a machine: `start` is where the current cycle
   began, `prev`/`j` the two ends of the next swap.                           *)
VARIABLES perm, orig, v, done, start, prev, j
vars == <<perm, orig, v, done, start, prev, j>>
N == Len(orig)
Init(p, x) ==
  /\ perm = p /\ orig = x /\ v = x
  /\ done = [i \in 1..Len(x) |-> FALSE] /\ start = 0 /\ prev = 0 /\ j = 0
Open == \* the next position whose cycle was not walked yet
  /\ start = 0 /\ \E i \in 1..N : ~done[i]
  /\ LET i == CHOOSE k \in 1..N : ~done[k] /\ \A m \in 1..(k - 1) : done[m] IN
       /\ start' = i /\ prev' = i /\ j' = perm[i] + 1
       /\ done' = [done EXCEPT ![i] = TRUE]
  /\ UNCHANGED <<perm, orig, v>>
Swap ==
  /\ start # 0 /\ j # start
  /\ v' = [v EXCEPT ![prev] = v[j], ![j] = v[prev]]
  /\ done' = [done EXCEPT ![j] = TRUE]
  /\ prev' = j /\ j' = perm[j] + 1
  /\ UNCHANGED <<perm, orig, start>>
Close ==
  /\ start # 0 /\ j = start /\ start' = 0
  /\ UNCHANGED <<perm, orig, v, done, prev, j>>
Next == Open \/ Swap \/ Close
Complete == start = 0 /\ \A i \in 1..N : done[i]
Correct == Complete => v = Gather(perm, orig)
\* finished positions already hold their final value when no cycle is open
Partial == start = 0 => \A i \in 1..N : done[i] => v[i] = Gather(perm, orig)[i]
=============================================================================
