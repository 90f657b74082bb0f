----------------------------- MODULE MC_Evaluator -----------------------------
(* The diagonal from the rows of the owners to all processors that see a dof:
   every processor extracts its part and posts it to the others, waits for what
   it sees of theirs; the guess entry by entry.                                 *)
EXTENDS Evaluator, FiniteSetsExt
CONSTANTS N, P
Ranks == 1..P
VARIABLES owner, seen, state, vec, net, round, guess, fixed
vars == <<owner, seen, state, vec, net, round, guess, fixed>>
None == -1
\* the operator of round k
Value(k, i) == 10 * k + i
Owned(r) == {i \in Indices(N) : owner[i] = r}

Init ==
  /\ owner \in [Indices(N) -> Ranks]
  /\ seen \in [Ranks -> SUBSET Indices(N)] /\ \A r \in Ranks : Owned(r) \subseteq seen[r]
  /\ state = [r \in Ranks |-> "start"] /\ vec = [r \in Ranks |-> [i \in Indices(N) |-> None]]
  /\ net = {} /\ round = [r \in Ranks |-> 1]
  /\ fixed \in SUBSET Indices(N) /\ guess = [i \in Indices(N) |-> "garbage"]
Extract(r) ==
  /\ state[r] = "start" /\ state' = [state EXCEPT ![r] = "wait"]
  /\ vec' = [vec EXCEPT ![r] = [i \in Indices(N) |->
                IF i \in Owned(r) THEN Value(round[r], i) ELSE None]]
  /\ net' = net \union {[to |-> q, dof |-> i, round |-> round[r], value |-> Value(round[r], i)]
                          : q \in Ranks \ {r}, i \in Owned(r)}
  /\ UNCHANGED <<owner, seen, round, guess, fixed>>
Import(r) ==
  /\ state[r] = "wait"
  /\ \E m \in net : /\ m.to = r /\ m.round = round[r] /\ m.dof \in seen[r]
                    /\ vec[r][m.dof] = None
                    /\ vec' = [vec EXCEPT ![r][m.dof] = m.value] /\ net' = net \ {m}
  /\ UNCHANGED <<owner, seen, state, round, guess, fixed>>
Return(r) ==
  /\ state[r] = "wait" /\ \A i \in seen[r] : vec[r][i] # None
  /\ state' = [state EXCEPT ![r] = "done"] /\ UNCHANGED <<owner, seen, vec, net, round, guess, fixed>>
Again(r) ==
  /\ state[r] = "done" /\ round[r] < 2 /\ round' = [round EXCEPT ![r] = 2]
  /\ state' = [state EXCEPT ![r] = "start"] /\ UNCHANGED <<owner, seen, vec, net, guess, fixed>>
Guess ==
  \E i \in Indices(N) :
    /\ guess[i] = "garbage" /\ \A j \in 0..(i - 1) : guess[j] # "garbage"
    /\ guess' = [guess EXCEPT ![i] = IF i \in fixed THEN "zero" ELSE "inside"]
    /\ \A r \in Ranks : state[r] = "start"
    /\ UNCHANGED <<owner, seen, state, vec, net, round, fixed>>
Next == Guess \/ \E r \in Ranks : Extract(r) \/ Import(r) \/ Return(r) \/ Again(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsSeq(S) == SetToSeq(S)
Partition == IsPartition([r \in Ranks |-> AsSeq(Owned(r))], N)
Correct ==
  \A r \in Ranks : state[r] = "done" =>
    LET w == SelectSeq(AsSeq(Indices(N)), LAMBDA i : vec[r][i] # None) IN
    DiagonalOk([i \in 1..N |-> Value(round[r], i - 1)], AsSeq(seen[r]), w,
               [k \in 1..Len(w) |-> vec[r][w[k]]])
Guessed ==
  (\A i \in Indices(N) : guess[i] # "garbage") =>
    GuessOk(N, AsSeq(fixed), AsSeq({i \in Indices(N) : guess[i] = "zero"}),
            AsSeq({i \in Indices(N) : guess[i] = "inside"}))
Done == <>(\A r \in Ranks : state[r] = "done" /\ round[r] = 2)
=============================================================================
