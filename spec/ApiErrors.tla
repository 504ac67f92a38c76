------------------------------ MODULE ApiErrors ------------------------------
(* Which uses of the API are refused.  Every operation has a precondition; it  *)
(* is refused with a runtime error exactly when the precondition fails, and    *)
(* nothing changes then: the objects of the state answer as before.            *)
(* Spaces are trees: vs n, par (a curve in the plane), hei (a group), tb b     *)
(* (tangent bundle) and prod of a sequence.                                     *)
EXTENDS VUtil
VARIABLES space, solver, last
vars == <<space, solver, last>>
RECURSIVE NX(_)
RECURSIVE NDX(_)
RECURSIVE HasVs(_)
RECURSIVE HasPar(_)
NX(t) == CASE t[1] = "vs" -> t[2] [] t[1] = "par" -> 2 [] t[1] = "hei" -> 3 [] t[1] = "tb" -> NX(t[2]) + NDX(t[2])
           [] OTHER -> Sum([i \in 1..Len(t[2]) |-> NX(t[2][i])])
NDX(t) == CASE t[1] = "vs" -> t[2] [] t[1] = "par" -> 1 [] t[1] = "hei" -> 3 [] t[1] = "tb" -> 2 * NDX(t[2])
           [] OTHER -> Sum([i \in 1..Len(t[2]) |-> NDX(t[2][i])])
HasVs(t) == CASE t[1] = "vs" -> TRUE [] t[1] \in {"par", "hei"} -> FALSE [] t[1] = "tb" -> HasVs(t[2]) [] OTHER -> \E i \in 1..Len(t[2]) : HasVs(t[2][i])
HasPar(t) == CASE t[1] = "par" -> TRUE [] t[1] \in {"vs", "hei"} -> FALSE [] t[1] = "tb" -> HasPar(t[2]) [] OTHER -> \E i \in 1..Len(t[2]) : HasPar(t[2][i])
IsProd == space[1] = "prod"
NoSpace == <<"none">>
Init == space = NoSpace /\ solver = "none" /\ last = <<>>

Refused == <<"error">>
Ok(x) == <<"ok", x>>
(* ---- preconditions and results of the stateless operations ---- *)
NonFin(x) == x \in {INF, -INF, 1000000002}
Supported == {0, 1, 2, 3}                 \* dense, Bunch-Kaufman, block sparse, Eigen
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Valid(op) ==
  CASE op[1] = "split" -> op[3] = (IF op[2] < 2 THEN NX(space) ELSE NDX(space))
    [] op[1] = "norm" -> op[2] = NX(space)
    [] op[1] = "jdiff" -> op[2] \in {0, 1} \/ ~HasVs(space)
    [] op[1] = "target" -> op[3] = 0       \* a point of the space (else: off the space, or of another size)
    [] op[1] = "pset" -> op[2] = op[3]
    [] op[1] = "compose" -> op[3] = op[4]
    [] op[1] = "cast" -> op[2] = 1
    [] op[1] = "sig" -> \A i \in 1..Len(op[2]) : op[2][i] \in {-1, 0, 1}
    [] op[1] = "ldlt" -> op[2] \in Supported
    [] op[1] = "dim" -> op[2] = op[3]
    [] op[1] = "nan" -> \A i \in 1..Len(op[3]) : ~NonFin(op[3][i])
    [] op[1] = "interp" -> op[2] \in {0, 1, 2}
    [] op[1] = "slv" -> op[2] = 0 /\ solver = "ready"       \* strategy 0 is ARMIJO
    [] op[1] = "setup" -> op[2] \in Supported
    [] OTHER -> TRUE
Sizes(op) == IF op[2] < 2 THEN [i \in 1..Len(space[2]) |-> NX(space[2][i])] ELSE [i \in 1..Len(space[2]) |-> NDX(space[2][i])]
Result(op) ==
  CASE op[1] = "split" -> Sizes(op)
    [] op[1] = "norm" -> TRUE
    [] op[1] = "jdiff" -> 0
    [] op[1] = "target" -> NDX(space)
    [] op[1] = "sig" -> <<Count(op[2], 1), Count(op[2], -1), Count(op[2], 0)>>
    [] op[1] = "ldlt" -> Sum(op[3]) + Sum(op[4])
    [] op[1] = "space" -> <<NX(op[2]), NDX(op[2])>>
    [] op[1] = "compose" -> op[5]
    [] OTHER -> 0
Step(op) ==
  /\ IF Valid(op) THEN last' = <<op, Ok(Result(op))>> ELSE last' = <<op, Refused>>
  /\ space' = IF op[1] = "space" THEN op[2] ELSE space
  /\ solver' = CASE op[1] = "mk" -> "made"
                 [] op[1] = "setup" /\ Valid(op) -> "ready"
                 [] op[1] = "setup" -> IF solver = "ready" THEN "ready" ELSE "made"
                 [] OTHER -> solver
=============================================================================
