----------------------------- MODULE FastProduct -----------------------------
(* The fast product A R^T on a chain of cells, computed by a pipeline of workers
   with reused result slots and one copier, in any interleaving.

   Cell k (1..N) joins the degrees of freedom Left(k) and k with coefficient
   coef[k]; Left(k) is the end k-1 of its predecessor unless the chain is cut
   there (k-1 in cut).  It adds coef[k] * (1, -1; -1, 1) to the operator.  agg[k] is the cell's
   agglomerate, vec[a][g] the entry of the agglomerate's vector at g (only its
   own degrees of freedom count).  Everything is in units of 1/Unit, which every
   possible diagonal divides.

   What has to come out: (A R^T)[g, a], R = vec weighted by own over all diagonal.
   How it is computed: the agglomerate's own operator times its vector (an
   eigenvector: its eigenvalue times itself), plus the operator of its boundary
   cells times what the weights change (delta), plus the operator of the cells
   around it times the weighted vector.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Unit, Slots, ClearEmpty
VARIABLES coef, agg, vec, cut,
          stage,     \* 1: boundary cells, 2: cells around, 3: finished
          next,      \* the next agglomerate to hand out
          slot,      \* per slot: [state, task, data]; data outlives the task
          order,     \* the agglomerates whose result was copied, in this stage
          acc        \* the sum of what was copied: <<g, a>> -> number
vars == <<coef, agg, vec, cut, stage, next, slot, order, acc>>

Cells == 1..N
Dofs == 0..(2 * N)
Left(k) == IF k - 1 \in cut THEN N + k ELSE k - 1
K == Cardinality({agg[k] : k \in Cells})
Aggs == 1..K
CellsOf(a) == {k \in Cells : agg[k] = a}
DofsOf(cs) == {Left(k) : k \in cs} \cup cs
Touch(k, m) == DofsOf({k}) \cap DofsOf({m}) # {}
SumC(cs) == LET RECURSIVE S(_)
                S(c) == IF c = {} THEN 0 ELSE LET x == CHOOSE y \in c : TRUE IN
                          coef[x] + S(c \ {x})
            IN S(cs)
DiagOf(cs, g) == SumC({k \in cs : g \in DofsOf({k})})
Boundary(a) == {k \in CellsOf(a) : \E m \in Cells \ CellsOf(a) : Touch(k, m)}
Around(a) == {k \in Cells \ CellsOf(a) : \E m \in CellsOf(a) : Touch(k, m)}
\* (operator of the cells) times a function on the degrees of freedom
Times(cs, f) ==
  LET term(k, g) == IF g = k THEN coef[k] * (f[k] - f[Left(k)])
                    ELSE IF g = Left(k) THEN coef[k] * (f[Left(k)] - f[k]) ELSE 0 IN
  LET RECURSIVE S(_, _)
      S(c, g) == IF c = {} THEN 0 ELSE LET x == CHOOSE y \in c : TRUE IN
                   term(x, g) + S(c \ {x}, g)
  IN [g \in Dofs |-> S(cs, g)]
Plain(a) == [g \in Dofs |-> IF g \in DofsOf(CellsOf(a)) THEN Unit * vec[a][g] ELSE 0]
Weighted(a) ==
  [g \in Dofs |-> IF g \in DofsOf(CellsOf(a))
     THEN ((Unit * DiagOf(CellsOf(a), g)) \div DiagOf(Cells, g)) * vec[a][g] ELSE 0]
Delta(a) == [g \in Dofs |-> Weighted(a)[g] - Plain(a)[g]]
Meant(a) == Times(Cells, Weighted(a))
Own(a) == Times(CellsOf(a), Plain(a))

Patch(a) == IF stage = 1 THEN Boundary(a) ELSE Around(a)
Nothing == [of |-> 0, val |-> [g \in Dofs |-> 0]]
Init0 ==
  /\ stage = 1 /\ next = 1 /\ order = <<>>
  /\ slot = [s \in 1..Slots |-> [state |-> "free", task |-> 0, data |-> Nothing]]
  /\ acc = [g \in Dofs |-> [a \in 1..N |-> 0]]
\* hand the next agglomerate to a free slot
Hand(s) ==
  /\ stage < 3 /\ next <= K /\ slot[s].state = "free"
  /\ slot' = [slot EXCEPT ![s].state = "busy", ![s].task = next]
  /\ next' = next + 1
  /\ UNCHANGED <<coef, agg, vec, cut, stage, order, acc>>
Work(s) ==
  /\ slot[s].state = "busy"
  /\ LET a == slot[s].task IN
     slot' = [slot EXCEPT ![s].state = "ready",
       ![s].data = IF Patch(a) = {} THEN (IF ClearEmpty THEN Nothing ELSE @)
                   ELSE [of |-> a, val |-> Times(Patch(a),
                                     IF stage = 1 THEN Delta(a) ELSE Weighted(a))]]
  /\ UNCHANGED <<coef, agg, vec, cut, stage, next, order, acc>>
\* one copier, results in the order in which they were handed out
Copy(s) ==
  /\ slot[s].state = "ready" /\ slot[s].task = Len(order) + 1
  /\ order' = Append(order, slot[s].task)
  /\ slot' = [slot EXCEPT ![s].state = "free"]
  /\ LET d == slot[s].data IN
     acc' = IF d.of = 0 THEN acc
            ELSE [g \in Dofs |-> [acc[g] EXCEPT ![d.of] = @ + d.val[g]]]
  /\ UNCHANGED <<coef, agg, vec, cut, stage, next>>
\* the second list is started when the first one is through, with new slots
Turn ==
  /\ stage < 3 /\ Len(order) = K
  /\ stage' = stage + 1 /\ next' = 1 /\ order' = <<>>
  /\ slot' = [s \in 1..Slots |-> [state |-> "free", task |-> 0, data |-> Nothing]]
  /\ UNCHANGED <<coef, agg, vec, cut, acc>>
HandAny == \E s \in 1..Slots : Hand(s)
WorkAny == \E s \in 1..Slots : Work(s)
CopyAny == \E s \in 1..Slots : Copy(s)
Next == HandAny \/ WorkAny \/ CopyAny \/ Turn

\* what a schedule may not change
Exact == stage = 3 => \A a \in Aggs : \A g \in Dofs : Own(a)[g] + acc[g][a] = Meant(a)[g]
InOrder == \A i \in 1..Len(order) : order[i] = i
OneTask == \A s, t \in 1..Slots :
  (s # t /\ slot[s].state # "free" /\ slot[t].state # "free") => slot[s].task # slot[t].task
Ends == <>(stage = 3)
=============================================================================
