------------------------------- MODULE Timing -------------------------------
(* What a timer sees of a hierarchy's life: sections are entered and left like
   calls on a stack, every piece of work is done inside the section it belongs
   to, and when the set-up or an application is over, whichever way it ended,
   no section is left open.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  open,   \* the sections that are open, innermost last
  calls   \* how often each section was entered
tmVars == <<open, calls>>

Setups == [Operator |-> "Setup", BuildS |-> "Setup: build smoother",
           BuildR |-> "Setup: build restrictor", BuildFast |-> "Setup: fast_ap",
           MultiplyT |-> "Setup: ap", Multiply |-> "Setup: build coarse matrix",
           BuildC |-> "Setup: build coarse solver"]
Applies == [S |-> "Apply: fine levels", R |-> "Apply: fine levels",
            A |-> "Apply: fine levels", RT |-> "Apply: fine levels",
            C |-> "Apply: coarsest level"]
Kinds == DOMAIN Setups \union DOMAIN Applies
SectionOf(k) == IF k \in DOMAIN Setups THEN Setups[k] ELSE Applies[k]
Whole(k) == IF k \in DOMAIN Setups THEN "Setup" ELSE "Apply"
Sections == {Setups[k] : k \in DOMAIN Setups} \union {Applies[k] : k \in DOMAIN Applies}
              \union {"Apply"}
Count(c, s) == IF s \in DOMAIN c THEN c[s] ELSE 0

TmInit == open = <<>> /\ calls = <<>>
Enter(s) == /\ open' = Append(open, s)
            /\ calls' = (s :> Count(calls, s) + 1) @@ calls
Leave == /\ open # <<>>
         /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED calls

\* where work of kind k may be done
Inside(o, k) == /\ o # <<>> /\ o[1] = Whole(k) /\ o[Len(o)] = SectionOf(k)
=============================================================================
