------------------------------ MODULE MC_Config -------------------------------
(* The set-up as a machine, over every configuration that differs from a valid
   one in at most two places (MC_ConfigDeep: three).  The configurations are
   written to a file for the real library to set up.                            *)
EXTENDS Config, Json, IOUtils, SequencesExt
CONSTANT Differences
VARIABLES conf, at, state
vars == <<conf, at, state>>

Starts == {Start(ev, d) : ev \in {"matrix", "free"}, d \in {"2", "3"}}
Changes == {<<f, v>> : f \in Fields \ {"dim"}, v \in UNION {Values(g) : g \in Fields}}
Proper == {x \in Changes : x[2] \in Values(x[1])}
Changed(S) == S \cup {With(c, x[1], x[2]) : c \in S, x \in Proper}
Space == LET one == Changed(Starts) IN
         LET two == Changed(one) IN
         IF Differences = 1 THEN one ELSE IF Differences = 2 THEN two ELSE Changed(two)

Init == conf \in Space /\ at = 1 /\ state = "setting up"
Step ==
  /\ state = "setting up" /\ at <= Len(Stages(conf))
  /\ Can(conf, Stages(conf)[at]) /\ at' = at + 1 /\ UNCHANGED <<conf, state>>
Reject ==
  /\ state = "setting up" /\ at <= Len(Stages(conf))
  /\ ~ Can(conf, Stages(conf)[at]) /\ state' = "rejected" /\ UNCHANGED <<conf, at>>
Finish ==
  /\ state = "setting up" /\ at > Len(Stages(conf))
  /\ state' = "ready" /\ UNCHANGED <<conf, at>>
Spec == Init /\ [][Step \/ Reject \/ Finish]_vars

\* nothing unknown, missing or unavailable is ever run
NeverSilent ==
  state = "ready" =>
    /\ conf.params = "given" /\ conf.evaluator \in {"matrix", "free"}
    /\ conf.levels \in {"absent", "1", "2"}
    /\ conf.coarse \notin {"lu", "", "directs", "jacobi"}
    /\ conf.levels = "1" => conf.evaluator = "matrix"
    /\ conf.levels /= "1" =>
         /\ conf.smoother \notin {"Gauss Seidel", "jacobi ", "", "direct"}
         /\ (conf.evaluator = "free") => conf.smoother \in {"absent", "Chebyshev", "CHEBYSHEV"}
         /\ conf.eigensolver \notin {"nothing", "lanczoss", "", "jacobi", "arnoldi"}
         /\ conf.evaluator = "free" => conf.eigensolver \notin {"arpack", "lapack"}
         /\ conf.partitioner \notin {"nothing", "absent", "blocks", "", "parmetis"}
         /\ Partitioner(conf) = "block" => conf.nx = "2" /\ conf.ny = "2"
         /\ (Partitioner(conf) = "block" /\ conf.dim = "3") => conf.nz = "2"
         /\ Partitioner(conf) = "partition" => conf.n = "2"
SameAnswer == /\ state = "ready" => Runs(conf)
              /\ state = "rejected" => ~ Runs(conf)
\* what is not used is not looked at
Unused == at = 1 => \A f \in {"smoother", "eigensolver", "partitioner", "nx", "deflation", "fast"} :
            conf.levels = "1" => \A v \in Values(f) : Runs(With(conf, f, v)) = Runs(conf)

Written == TLCGet("stats").distinct > 0 /\
           ndJsonSerialize(IOEnv.CASES, SetToSeq({[conf |-> c] : c \in Space}))
=============================================================================
