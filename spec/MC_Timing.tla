------------------------------ MODULE MC_Timing ------------------------------
(* Hierarchies of up to MaxL levels that are built and applied with one timer;
   any piece of work may fail, and what fails is unwound.                     *)
EXTENDS Timing

CONSTANTS MaxL, MaxJobs
VARIABLES
  plan,    \* what is still to be done: sequence of "+section", "-", "work"
  how,     \* "idle" | "run" | "failing"
  n,       \* jobs so far
  begun    \* set-ups and applications begun
vars == <<open, calls, plan, how, n, begun>>

In(s, body) == <<[do |-> "enter", s |-> s]>> \o body \o <<[do |-> "leave"]>>
Work(k) == <<[do |-> "work", k |-> k]>>
RECURSIVE Levels(_, _, _)
Levels(L, l, fast) ==
  IF l = L THEN In("Setup: build coarse solver", Work("BuildC"))
  ELSE In("Setup: build smoother", Work("BuildS"))
       \o In("Setup: build restrictor", Work("BuildR"))
       \o (IF fast THEN In("Setup: fast_ap", Work("BuildFast"))
                   ELSE In("Setup: ap", Work("MultiplyT")))
       \o In("Setup: build coarse matrix", Work("Multiply"))
       \o Levels(L, l + 1, fast)
RECURSIVE CyclePlan(_, _)
CyclePlan(L, l) ==
  IF l = L THEN In("Apply: coarsest level", Work("C"))
  ELSE In("Apply: fine levels",
          Work("S") \o Work("R") \o CyclePlan(L, l + 1) \o Work("RT") \o Work("S"))
Plans == {In("Setup", Work("Operator") \o Levels(L, 1, f)) :
            L \in 1..MaxL, f \in BOOLEAN}
         \union {In("Apply", CyclePlan(L, 1)) : L \in 1..MaxL}

Init == TmInit /\ plan = <<>> /\ how = "idle" /\ n = 0
        /\ begun = [Setup |-> 0, Apply |-> 0]
Begin ==
  /\ how = "idle" /\ n < MaxJobs
  /\ \E p \in Plans :
       /\ plan' = p /\ begun' = [begun EXCEPT ![p[1].s] = @ + 1]
  /\ how' = "run" /\ n' = n + 1 /\ UNCHANGED tmVars
DoEnter == /\ how = "run" /\ plan # <<>> /\ Head(plan).do = "enter"
           /\ Enter(Head(plan).s) /\ plan' = Tail(plan) /\ UNCHANGED <<how, n, begun>>
DoLeave == /\ how = "run" /\ plan # <<>> /\ Head(plan).do = "leave"
           /\ Leave /\ plan' = Tail(plan) /\ UNCHANGED <<how, n, begun>>
DoWork == /\ how = "run" /\ plan # <<>> /\ Head(plan).do = "work"
          /\ Inside(open, Head(plan).k)
          /\ plan' = Tail(plan) /\ UNCHANGED <<tmVars, how, n, begun>>
Fail == /\ how = "run" /\ plan # <<>> /\ Head(plan).do = "work"
        /\ how' = "failing" /\ plan' = <<>> /\ UNCHANGED <<tmVars, n, begun>>
Unwind == how = "failing" /\ open # <<>> /\ Leave /\ UNCHANGED <<plan, how, n, begun>>
Over == /\ \/ how = "run" /\ plan = <<>>
           \/ how = "failing" /\ open = <<>>
        /\ how' = "idle" /\ UNCHANGED <<tmVars, plan, n, begun>>
Next == Begin \/ DoEnter \/ DoLeave \/ DoWork \/ Fail \/ Unwind \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(DoEnter \/ DoLeave \/ DoWork \/ Fail \/ Unwind \/ Over)

NothingLeftOpen == how = "idle" => open = <<>>
WorkHasItsSection ==
  (how = "run" /\ plan # <<>> /\ Head(plan).do = "work") => Inside(open, Head(plan).k)
EachCounted ==
  how = "idle" => /\ Count(calls, "Setup") = begun.Setup
                  /\ Count(calls, "Apply") = begun.Apply
Comes == (how # "idle") ~> (how = "idle")
=============================================================================
