----------------------------- MODULE MathHelpers -----------------------------
(* The scalar and norm helpers of math.hpp as total functions on extended      *)
(* reals (integers in eighths, INF, NANV).                                      *)
EXTENDS VUtil
VARIABLE last
NANV == 1000000002
HUGE == 99000000        \* a finite value close to the largest one
NonFin(x) == Abs(x) = INF \/ x = NANV
Rows(M) == Len(M)
NormOf(M) == MaxSeq0([i \in 1..Len(M) |-> Normi(M[i])])
\* <<"inf", shape, M>>: the largest absolute entry, 0 for an empty matrix
Inf(op) == NormOf(op[3])
InfList(op) == MaxSeq0([i \in 1..Len(op[2]) |-> Normi(op[2][i])])
SignOf(op) == IF op[3] = NANV THEN 0 ELSE Sgn(op[3])
HasBad(M) == \E i \in 1..Len(M) : \E j \in 1..Len(M[i]) : NonFin(M[i][j])
\* |a - b| < prec (1 + max(|a|, |b|)), prec = p / 2^k, values in eighths; p = 0: the default precision (machine epsilon)
CloseTo(a, b, p, k) == IF p = 0 THEN a = b ELSE Abs(a - b) * Pow2(k) < p * (8 + Max2(Abs(a), Abs(b)))
Answer(op) == CASE op[1] = "inf" -> Inf(op) [] op[1] = "infl" -> InfList(op) [] op[1] = "sign" -> SignOf(op)
                [] op[1] = "chk" -> HasBad(op[3]) [] op[1] = "chks" -> NonFin(op[3])
                [] op[1] = "close" -> CloseTo(op[2], op[3], op[4], op[5])
Init == last = <<>>
Step(op) == \E a \in {Answer(op)} : last' = <<op, a>>

(* ---- laws, checked on a grid ---- *)
SymmetricClose == \A a, b \in {-9, -8, -1, 0, 3, 8, 40} : \A p \in {0, 1, 3}, k \in {0, 4} : CloseTo(a, b, p, k) = CloseTo(b, a, p, k) /\ CloseTo(a, a, p, k)
NormLaws == \A M \in [1..2 -> [1..2 -> {-3, 0, 2}]] : LET n == NormOf(M) IN
   /\ \A i, j \in 1..2 : Abs(M[i][j]) <= n
   /\ \E i, j \in 1..2 : Abs(M[i][j]) = n
   /\ NormOf(Transp(M, 2)) = n /\ NormOf(MScale(-2, M)) = 2 * n
=============================================================================
