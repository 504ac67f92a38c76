----------------------------- MODULE ManifoldOps -----------------------------
(* Calculus of the spaces, as pure operators on space descriptors.  Reals are  *)
(* integers in units of 1/256.                                                 *)
EXTENDS VUtil
U == 256
\* a * b / U without leaving 32 bits (exact when the product is a multiple of the unit)
Mul(a, b) == (a \div U) * b + ((a % U) * b) \div U
S64(x) == [i \in 1..Len(x) |-> U * x[i]]
RECURSIVE NX(_), NDX(_), Depth(_), Desc(_)
NX(m) == CASE m.k = "vs" -> m.n [] m.k \in {"vs2", "scl"} -> 2 [] m.k = "par" -> 2 [] m.k = "hei" -> 3
           [] m.k = "tb" -> NX(m.b) + NDX(m.b)
           [] m.k = "prod" -> Sum([i \in 1..Len(m.c) |-> NX(m.c[i])])
NDX(m) == CASE m.k = "vs" -> m.n [] m.k \in {"vs2", "scl"} -> 2 [] m.k = "par" -> 1 [] m.k = "hei" -> 3
           [] m.k = "tb" -> 2 * NDX(m.b)
           [] m.k = "prod" -> Sum([i \in 1..Len(m.c) |-> NDX(m.c[i])])
Depth(m) == CASE m.k = "tb" -> 1 + Depth(m.b)
              [] m.k = "prod" -> 1 + MaxSeq0([i \in 1..Len(m.c) |-> Depth(m.c[i])])
              [] OTHER -> 0
\* structure as a flat sequence of integers
Desc(m) == CASE m.k = "vs" -> <<1, m.n>> [] m.k = "vs2" -> <<2, 2>> [] m.k = "par" -> <<3>> [] m.k = "hei" -> <<4>> [] m.k = "scl" -> <<7>>
             [] m.k = "tb" -> <<5>> \o Desc(m.b)
             [] m.k = "prod" -> <<6, Len(m.c)>> \o Concat([i \in 1..Len(m.c) |-> Desc(m.c[i])])
\* a tangent bundle can be formed (statically) over these
CanTB(m) == m.k # "none" /\ (m.k \in {"vs", "vs2", "par", "hei", "scl", "prod"} \/ (m.k = "tb" /\ m.b.k = "vs"))

Offs(m) == Offsets([i \in 1..Len(m.c) |-> NX(m.c[i])])
OffsV(m) == Offsets([i \in 1..Len(m.c) |-> NDX(m.c[i])])
XBlk(m, x, i) == Block(x, Offs(m)[i], NX(m.c[i]))
VBlk(m, v, i) == Block(v, OffsV(m)[i], NDX(m.c[i]))
Tail2(x, n) == SubSeq(x, Len(x) - n + 1, Len(x))
Head2(x, n) == SubSeq(x, 1, n)

(* ---- group calculus of "hei": (a,b,c)(a',b',c') = (a+a', b+b', c+c'+a b') ---- *)
HMul(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3] + Mul(x[1], y[2])>>
HInv(x) == <<-x[1], -x[2], -x[3] + Mul(x[1], x[2])>>
HExp(v) == <<v[1], v[2], v[3] + Mul(v[1], v[2]) \div 2>>
HLog(x) == <<x[1], x[2], x[3] - Mul(x[1], x[2]) \div 2>>
\* Jacobians in tangent coordinates (unit 64)
HAdInv(v) == <<<<U, 0, 0>>, <<0, U, 0>>, <<v[2], -v[1], U>>>>         \* Ad of exp(-v)
HJexp(v) == <<<<U, 0, 0>>, <<0, U, 0>>, <<v[2] \div 2, -v[1] \div 2, U>>>>  \* right Jacobian
HJlog(v) == <<<<U, 0, 0>>, <<0, U, 0>>, <<-(v[2] \div 2), v[1] \div 2, U>>>>  \* its inverse

RECURSIVE Neutral(_), Valid(_, _), Integ(_, _, _), Diff(_, _, _), Jint(_, _, _, _), Jdiff(_, _, _, _), Interp(_, _, _, _), Transp2(_, _, _, _, _)
Neutral(m) == CASE m.k = "prod" -> Concat([i \in 1..Len(m.c) |-> Neutral(m.c[i])])
               [] m.k = "tb" -> Neutral(m.b) \o Zeros(NDX(m.b))
               [] m.k = "par" -> <<U, U>>          \* the parabola's distinguished point is t = 1
               [] OTHER -> Zeros(NX(m))
Valid(m, x) == CASE m.k = "prod" -> \A i \in 1..Len(m.c) : Valid(m.c[i], XBlk(m, x, i))
                [] m.k = "tb" -> Valid(m.b, Head2(x, NX(m.b)))
                [] m.k = "par" -> Mul(x[1], x[1]) = x[2]
                [] OTHER -> TRUE
Integ(m, x, v) ==
  CASE m.k = "prod" -> Concat([i \in 1..Len(m.c) |-> Integ(m.c[i], XBlk(m, x, i), VBlk(m, v, i))])
    [] m.k = "tb" -> LET n == NDX(m.b) IN Integ(m.b, Head2(x, NX(m.b)), Head2(v, n)) \o VAdd(Tail2(x, n), Tail2(v, n))
    [] m.k = "par" -> LET t == x[1] + v[1] IN <<t, Mul(t, t)>>
    [] m.k = "hei" -> HMul(x, HExp(v))
    [] m.k = "scl" -> VAdd(x, VScale(2, v))         \* the chart is twice as long as the tangent step
    [] OTHER -> VAdd(x, v)
Diff(m, x, y) ==
  CASE m.k = "prod" -> Concat([i \in 1..Len(m.c) |-> Diff(m.c[i], XBlk(m, x, i), XBlk(m, y, i))])
    [] m.k = "tb" -> LET n == NDX(m.b) IN Diff(m.b, Head2(x, NX(m.b)), Head2(y, NX(m.b))) \o VSub(Tail2(y, n), Tail2(x, n))
    [] m.k = "par" -> <<y[1] - x[1]>>
    [] m.k = "hei" -> HLog(HMul(HInv(x), y))
    [] m.k = "scl" -> [i \in 1..Len(x) |-> (y[i] - x[i]) \div 2]
    [] OTHER -> VSub(y, x)
DiagBlocks(bs) ==      \* block diagonal matrix
  LET sz == [i \in 1..Len(bs) |-> Len(bs[i])] off == Offsets(sz) n == Sum(sz) IN
  Concat([i \in 1..Len(bs) |-> [r \in 1..sz[i] |-> Zeros(off[i]) \o bs[i][r] \o Zeros(n - off[i] - sz[i])]])
UI(n) == MScale(U, Ident(n))
Jint(m, x, v, arg) ==
  CASE m.k = "prod" -> DiagBlocks([i \in 1..Len(m.c) |-> Jint(m.c[i], XBlk(m, x, i), VBlk(m, v, i), arg)])
    [] m.k = "tb" -> LET n == NDX(m.b) IN DiagBlocks(<<Jint(m.b, Head2(x, NX(m.b)), Head2(v, n), arg), UI(n)>>)
    [] m.k = "hei" -> IF arg = 0 THEN HAdInv(v) ELSE HJexp(v)
    [] OTHER -> UI(NDX(m))
Jdiff(m, x, y, arg) ==
  CASE m.k = "prod" -> DiagBlocks([i \in 1..Len(m.c) |-> Jdiff(m.c[i], XBlk(m, x, i), XBlk(m, y, i), arg)])
    [] m.k = "tb" -> LET n == NDX(m.b) IN DiagBlocks(<<Jdiff(m.b, Head2(x, NX(m.b)), Head2(y, NX(m.b)), arg), MScale(IF arg = 0 THEN -1 ELSE 1, UI(n))>>)
    [] m.k = "hei" -> LET d == Diff(m, x, y) IN
                      IF arg = 1 THEN HJlog(d) ELSE MScale(-1, HJlog(VScale(-1, d)))
    [] OTHER -> MScale(IF arg = 0 THEN -1 ELSE 1, UI(NDX(m)))
\* u in units of 1/4
Interp(m, x, y, u) ==
  CASE m.k = "tb" -> LET n == NDX(m.b) IN Interp(m.b, Head2(x, NX(m.b)), Head2(y, NX(m.b)), u) \o
                     [i \in 1..n |-> ((4 - u) * Tail2(x, n)[i] + u * Tail2(y, n)[i]) \div 4]
    [] m.k \in {"vs", "vs2"} -> [i \in 1..Len(x) |-> ((4 - u) * x[i] + u * y[i]) \div 4]
    [] OTHER -> LET d == Diff(m, x, y) IN Integ(m, x, [i \in 1..Len(d) |-> (u * d[i]) \div 4])
\* transport of the rows of J (unit 64 in and out)
MMul(A, B, c) == [i \in 1..Len(A) |-> [j \in 1..c |-> Sum([k \in 1..Len(B) |-> Mul(A[i][k], B[k][j])])]]
Transp2(m, x, v, arg, J) ==
  CASE m.k = "prod" -> Concat([i \in 1..Len(m.c) |-> Transp2(m.c[i], XBlk(m, x, i), VBlk(m, v, i), arg, VBlk(m, J, i))])
    [] m.k = "tb" -> LET n == NDX(m.b) IN Transp2(m.b, Head2(x, NX(m.b)), Head2(v, n), arg, Head2(J, n)) \o Tail2(J, n)
    [] m.k = "hei" -> MMul(Jint(m, x, v, arg), J, Len(J[1]))
    [] OTHER -> J

=============================================================================
