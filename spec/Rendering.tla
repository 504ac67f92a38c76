------------------------------ MODULE Rendering ------------------------------
(* What the library prints about its objects (C24), after parsing: sparsity    *)
(* patterns, sums of costs, results, line-search options, names of modes.      *)
(* A real is <<m, e>>: m * 10^e, 1000 <= |m| <= 9999 or <<0, 0>>, the four      *)
(* significant digits the formats promise.                                     *)
EXTENDS VUtil
VARIABLE last
INSTANCE BlockStructure WITH Slots <- {}, Rand <- FALSE, Lens <- {}, MaxBlocks <- 0, heap <- <<>>, slot <- <<>>
Sub(s, a, n) == [lens |-> [i \in 1..n |-> s.lens[a + i]], k |-> [i \in 1..n |-> [j \in 1..n |-> s.k[a + i][a + j]]]]
\* <<"pat", lens, kinds, a, n>>: the cells of the view of n blocks starting at block a
Cells(op) == LET s == Sub([lens |-> op[2], k |-> op[3]], op[4], op[5]) F == Full(s) IN
  [i \in 1..N(s) |-> [j \in 1..N(s) |-> IF <<i, j>> \in F THEN 1 ELSE 0]]
\* <<"csum", weights>>: number of terms, then their weights in order
CSum(op) == <<Len(op[2]), op[2]>>
ResKeys == <<"convergence", "merit", "value", "num_iters", "mu", "rho", "dual_infeas", "prim_infeas">>
\* <<"res", via, dims, scalars, violations, active sets>>
ResOf(op) == [keys |-> ResKeys, vals |-> op[4], viol |-> op[5], act |-> op[6]]
HessNames == <<"EXACT", "GAUSS_NEWTON", "BFGS", "IDENTITY">>
LsOf(op) == [armijo_c1 |-> op[2], contraction_min |-> op[3], contraction_max |-> op[4]]
Answer(op) == CASE op[1] = "pat" -> Cells(op) [] op[1] = "csum" -> CSum(op) [] op[1] = "res" -> ResOf(op)
                [] op[1] = "hess" -> HessNames[op[2] + 1] [] op[1] = "lso" -> LsOf(op)
Init == last = <<>>
Step(op) == \E a \in {Answer(op)} : last' = <<op, a>>

(* ---- laws of the pattern rendering ---- *)
Ones(M) == Sum([i \in 1..Len(M) |-> Sum(M[i])])
PatternLaws == \A r \in 1..3, c \in 1..3, a, b, d \in Kinds :
  LET s == [lens |-> <<r, c>>, k |-> <<<<a, b>>, <<Trans(b), d>>>>] M == Cells(<<"pat", s.lens, s.k, 0, 2>>) IN
  /\ Ones(M) = Nnz(s)                                                     \* as many cells as counted entries
  /\ (Trans(a) = a /\ Trans(d) = d) => Transp(M, r + c) = M               \* symmetric structures print symmetrically
  /\ Cells(<<"pat", s.lens, s.k, 1, 1>>) = [i \in 1..c |-> [j \in 1..c |-> M[r + i][r + j]]]   \* a view prints its part
=============================================================================
