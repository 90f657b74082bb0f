------------------------------- MODULE Config --------------------------------
(* Which configurations the library can run, and how far a set-up gets.  A
   configuration is a record of strings; "absent" is a key that is not there,
   "nothing" a section that is not there.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fields == {"params", "evaluator", "dim", "levels", "smoother", "coarse", "eigensolver",
           "deflation", "count", "tolerance", "partitioner", "nx", "ny", "nz", "n", "fast"}
Values(f) ==
  CASE f = "params"      -> {"given", "nothing"}
    [] f = "evaluator"   -> {"matrix", "free", "stranger", "flat", "flat free"}
    [] f = "dim"         -> {"2", "3"}
    [] f = "levels"      -> {"absent", "1", "2", "0", "-3", "3"}
    [] f = "smoother"    -> {"absent", "Jacobi", "jacobi", "Gauss-Seidel", "ILU",
                             "SYMMETRIC GAUSS-SEIDEL", "Chebyshev", "CHEBYSHEV",
                             "Gauss Seidel", "jacobi ", "", "direct"}
    [] f = "coarse"      -> {"absent", "direct", "Direct", "ml", "ML", "lu", "",
                             "directs", "jacobi"}
    [] f = "eigensolver" -> {"nothing", "absent", "arpack", "lapack", "lanczos", "anasazi",
                             "lanczoss", "", "jacobi", "arnoldi"}
    [] f = "deflation"   -> {"absent", "full", "no cycles", "no pairs", "text"}
    [] f = "count"       -> {"absent", "1", "2"}
    [] f = "tolerance"   -> {"absent", "1e-10"}
    [] f = "partitioner" -> {"nothing", "absent", "block", "BLOCK", "Block", "zoltan",
                             "Zoltan", "metis", "METIS", "blocks", "", "parmetis"}
    [] f \in {"nx", "ny", "nz", "n"} -> {"2", "absent", "two", "1.5", ""}
    [] f = "fast"        -> {"absent", "true", "false"}
    [] OTHER             -> {}

Start(ev, d) ==
  [params |-> "given", evaluator |-> ev, dim |-> d, levels |-> "absent",
   smoother |-> "absent", coarse |-> "absent",
   eigensolver |-> IF ev = "free" THEN "lanczos" ELSE "lapack", deflation |-> "absent",
   count |-> "1", tolerance |-> "1e-10", partitioner |-> "block",
   nx |-> "2", ny |-> "2", nz |-> "2", n |-> "2", fast |-> "absent"]
With(c, f, v) == [c EXCEPT ![f] = v]

(* ------------------------------ what is supported ------------------------- *)
Free(c) == c.evaluator = "free"
Levels(c) == CASE c.levels = "1" -> 1 [] c.levels \in {"absent", "2"} -> 2
               [] c.levels = "3" -> 3 [] OTHER -> 0
KnownEvaluator(c) == c.evaluator \in {"matrix", "free"}
KnownSmoother(c) ==
  IF Free(c) THEN c.smoother \in {"absent", "Chebyshev", "CHEBYSHEV"}
  ELSE c.smoother \in {"absent", "Jacobi", "jacobi", "Gauss-Seidel", "ILU",
                       "SYMMETRIC GAUSS-SEIDEL"}
KnownCoarse(c) == c.coarse \in {"absent", "direct", "Direct", "ml", "ML"}
Partitioner(c) ==
  CASE c.partitioner \in {"block", "BLOCK", "Block"} -> "block"
    [] c.partitioner \in {"zoltan", "Zoltan", "metis", "METIS"} -> "partition"
    [] OTHER -> "unknown"
IsNumber(t) == t = "2"
Agglomerates(c) ==
  CASE Partitioner(c) = "block" -> IsNumber(c.nx) /\ IsNumber(c.ny)
                                   /\ (c.dim = "3" => IsNumber(c.nz))
    [] Partitioner(c) = "partition" -> IsNumber(c.n)
    [] OTHER -> FALSE
Eigensolver(c) ==
  IF c.eigensolver = "absent" THEN IF Free(c) THEN "lanczos" ELSE "arpack"
  ELSE c.eigensolver
Eigenpairs(c) ==
  CASE Eigensolver(c) \in {"arpack", "lapack"} -> ~ Free(c)
    [] Eigensolver(c) = "lanczos" -> c.deflation \in {"absent", "full"}
    [] Eigensolver(c) = "anasazi" -> c.count /= "absent" /\ c.tolerance /= "absent"
    [] OTHER -> FALSE

(* a set-up is a sequence of stages; the first that cannot be done rejects      *)
Stages(c) ==
  <<"params", "helpers", "levels">> \o
  (IF Levels(c) = 1 THEN <<"coarse">>
   ELSE <<"smoother", "restrictor", "agglomerates", "eigenpairs", "product", "coarse">>)
Can(c, stage) ==
  CASE stage = "params"       -> c.params = "given"
    [] stage = "helpers"      -> KnownEvaluator(c)
    [] stage = "levels"       -> Levels(c) > 0
    [] stage = "smoother"     -> KnownSmoother(c)
    [] stage = "restrictor"   -> c.eigensolver /= "nothing" /\ c.partitioner /= "nothing"
    [] stage = "agglomerates" -> Agglomerates(c)
    [] stage = "eigenpairs"   -> Eigenpairs(c)
    \* restrictors are only made for the finest operator
    [] stage = "product"      -> Levels(c) = 2
    \* the coarse solvers need a matrix
    [] stage = "coarse"       -> KnownCoarse(c) /\ ~ (Free(c) /\ Levels(c) = 1)
    [] OTHER                  -> FALSE
Runs(c) == \A i \in 1..Len(Stages(c)) : Can(c, Stages(c)[i])

(* --------------------------- operations of objects ------------------------ *)
Operations == {"apply", "apply transposed", "transpose", "times matrix", "times free",
  "times odd", "times transposed matrix", "times transposed free", "times transposed odd",
  "domain vector", "range vector", "grid complexity", "operator complexity", "smoother",
  "free smoother", "solver"}
Calls ==
  {<<o, w>> : o \in {"matrix", "free"}, w \in Operations} \cup {<<"serial", "times transposed">>}
  \cup {<<"evaluator", w>> : w \in {"global", "agglomerate", "diagonal"}}
  \cup {<<"free evaluator", w>> : w \in {"clone", "initialize", "agglomerate",
         "agglomerate diagonal", "global", "inverse diagonal", "diagonal"}}
  \cup {<<"helpers", "fast product">>}
\* sizes that do not fit ("odd") and operands of another kind are not supported
Supports(o, w) ==
  CASE o = "matrix" -> w \notin {"times free", "times odd", "times transposed free",
                                 "times transposed odd", "free smoother"}
    [] o = "free"   -> w \in {"apply", "times transposed matrix", "domain vector",
                              "range vector", "free smoother"}
    [] OTHER        -> FALSE
=============================================================================
