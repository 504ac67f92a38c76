------------------------------- MODULE VUtil -------------------------------
(* Integer vector / matrix operators and trace bookkeeping shared by all     *)
(* specifications.  Reals are integers in a fixed unit; INF marks infinity.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

INF == 100000000

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq0(s) == FoldLeft(LAMBDA a, b : Max2(a, b), 0, s)
Pow2(k) == 2^k

Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Zeros(n) == [i \in 1..n |-> 0]
VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
VScale(k, a) == TLCEval([i \in 1..Len(a) |-> k * a[i]])
Dot(a, b) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])
Normi(a) == MaxSeq0([i \in 1..Len(a) |-> Abs(a[i])])

Mat(r, c, F(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> F(i, j)])])
MatVec(M, v) == TLCEval([i \in 1..Len(M) |-> Dot(M[i], v)])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
TrVec(M, v, c) == TLCEval([j \in 1..c |-> Dot([i \in 1..Len(M) |-> M[i][j]], v)])   \* M' v
MatMul(A, B, c) == LET AA == TLCEval(A)  BB == TLCEval(B) IN TLCEval([i \in 1..Len(AA) |-> TLCEval([j \in 1..c |-> Dot(AA[i], [k \in 1..Len(BB) |-> BB[k][j]])])])
ForceV(v) == TLCEval([i \in 1..Len(v) |-> v[i]])
ForceM(M) == TLCEval([i \in 1..Len(M) |-> ForceV(M[i])])
Transp(A, c) == TLCEval([j \in 1..c |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MScale(k, A) == TLCEval([i \in 1..Len(A) |-> VScale(k, A[i])])
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
ZeroM(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]

Close(a, b, tol) == Abs(a - b) <= tol
VClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Offsets(sizes) == [i \in 1..Len(sizes) |-> Sum(SubSeq(sizes, 1, i - 1))]
Block(v, off, n) == SubSeq(v, off + 1, off + n)

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>}
            ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
=============================================================================
