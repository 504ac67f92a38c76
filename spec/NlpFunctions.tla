------------------------------ MODULE NlpFunctions ------------------------------
(* Differentiable functions and costs as shared objects: linear functions,    *)
(* state residuals, polynomial user functions, compositions, quadratic        *)
(* residual / distance costs, casts between functions and costs, and finite   *)
(* difference wrappers.  A function object has no memory: queries at a point   *)
(* depend on the object's parameters only.  Reals in units of 1/256.          *)
EXTENDS ManifoldOps
CONSTANTS Slots, Rand, Par, Coord, MaxHeap, Kinds
VARIABLES heap, ptr, last
vars == <<heap, ptr, last>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

VS(n) == [k |-> "vs", n |-> n]
HEI == [k |-> "hei", n |-> 0]
PARA == [k |-> "par", n |-> 0]
SpaceCodes == {"v1", "v2", "v3", "hei", "par", "tb1", "v1hei", "parv1", "scl", "v9", "v17", "mix"}
Space(c) == CASE c = "v1" -> VS(1) [] c = "v2" -> VS(2) [] c = "v3" -> VS(3) [] c = "v9" -> VS(9) [] c = "v17" -> VS(17) [] c = "hei" -> HEI [] c = "par" -> PARA
              [] c = "scl" -> [k |-> "scl", n |-> 0]
              [] c = "tb1" -> [k |-> "tb", b |-> VS(1)]
              [] c = "v1hei" -> [k |-> "prod", c |-> <<VS(1), HEI>>]
              [] c = "mix" -> [k |-> "prod", c |-> <<VS(5), PARA, [k |-> "scl", n |-> 0], [k |-> "tb", b |-> VS(2)]>>]
              [] c = "parv1" -> [k |-> "prod", c |-> <<PARA, VS(1)>>]

(* ---- dimensions and polynomial degree ---- *)
RECURSIVE XD(_, _), DX(_, _), NR(_, _), Deg(_, _), Dep(_, _)
XD(h, i) == LET o == h[i] IN CASE o.t = "lin" -> o.n [] o.t \in {"poly", "pol1"} -> 2 [] o.t \in {"diff", "dist", "ldiff", "fd1", "fd2"} -> NX(Space(o.m))
              [] o.t = "comp" -> XD(h, o.r) [] o.t \in {"qres", "f2c"} -> XD(h, o.f)
DX(h, i) == LET o == h[i] IN CASE o.t = "lin" -> o.n [] o.t \in {"poly", "pol1"} -> 2 [] o.t \in {"diff", "dist", "ldiff", "fd1", "fd2"} -> NDX(Space(o.m))
              [] o.t = "comp" -> DX(h, o.r) [] o.t \in {"qres", "f2c"} -> DX(h, o.f)
NR(h, i) == LET o == h[i] IN CASE o.t \in {"lin", "ldiff"} -> Len(o.A) [] o.t = "poly" -> 2 [] o.t \in {"pol1", "qres", "dist", "f2c"} -> 1
              [] o.t = "diff" -> NDX(Space(o.m)) [] o.t = "comp" -> NR(h, o.l) [] o.t \in {"fd1", "fd2"} -> NR(h, o.f)
SDeg(c) == IF c \in {"hei", "v1hei"} THEN 2 ELSE 1
Deg(h, i) == LET o == h[i] IN CASE o.t = "lin" -> 1 [] o.t = "poly" -> 2 [] o.t = "pol1" -> 3 [] o.t \in {"diff", "ldiff"} -> SDeg(o.m)
              [] o.t = "dist" -> 2 * SDeg(o.m) [] o.t = "comp" -> Deg(h, o.l) * Deg(h, o.r) [] o.t = "qres" -> 2 * Deg(h, o.f)
              [] o.t = "f2c" -> Deg(h, o.f) [] o.t \in {"fd1", "fd2"} -> Deg(h, o.f) * SDeg(o.m)
Dep(h, i) == LET o == h[i] IN CASE o.t = "comp" -> 1 + Max2(Dep(h, o.l), Dep(h, o.r)) [] o.t \in {"qres", "f2c", "fd1", "fd2"} -> 1 + Dep(h, o.f) [] OTHER -> 0
IsCost(o) == o.t \in {"qres", "dist", "f2c"}
IsC2(o) == o.t # "fd1"

(* ---- meaning ---- *)
RECURSIVE Val(_, _, _), Jac(_, _, _), VHP(_, _, _, _), Hess(_, _, _)
LinV(A, x) == [i \in 1..Len(A) |-> Dot(A[i], x)]
Quad(Q, b, c, r) == LET qr == LinV(Q, r) IN (Sum([i \in 1..Len(r) |-> Mul(r[i], qr[i])]) \div 2) + Dot(b, r) + U * c
FDcol(d, e) == [i \in 1..Len(d) |-> IF e = U THEN d[i] \div 2 ELSE IF 2 * e = U THEN d[i] ELSE 2 * d[i]]
Unit(n, j, e) == [i \in 1..n |-> IF i = j THEN e ELSE 0]
Step(m, x, j, e) == Integ(m, x, Unit(NDX(m), j, e))
ScaleU(k, M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> Mul(k, M[i][j])]]
Val(h, i, x) == LET o == h[i] IN
  CASE o.t = "lin" -> VAdd(LinV(o.A, x), S64(o.b))
    [] o.t = "diff" -> Diff(Space(o.m), S64(o.tgt), x)
    [] o.t = "ldiff" -> VAdd(LinV(o.A, Diff(Space(o.m), S64(o.tgt), x)), S64(o.b))
    [] o.t = "poly" -> <<Mul(x[1], x[1]) + o.k * x[2], Mul(x[1], x[2]) - x[2]>>
    [] o.t = "pol1" -> <<Mul(Mul(x[1], x[1]), x[2]) + o.k * x[1]>>
    [] o.t = "comp" -> Val(h, o.l, Val(h, o.r, x))
    [] o.t = "qres" -> <<Quad(o.Q, o.b, o.c, Val(h, o.f, x))>>
    [] o.t = "dist" -> LET r == Diff(Space(o.m), S64(o.tgt), x) IN <<Quad(o.Q, Zeros(Len(r)), 0, r)>>
    [] OTHER -> Val(h, o.f, x)                            \* f2c, fd1, fd2
Jac(h, i, x) == LET o == h[i] IN
  CASE o.t = "lin" -> MScale(U, o.A)
    [] o.t = "diff" -> Jdiff(Space(o.m), S64(o.tgt), x, 1)
    [] o.t = "ldiff" -> MMul(MScale(U, o.A), Jdiff(Space(o.m), S64(o.tgt), x, 1), DX(h, i))
    [] o.t = "poly" -> <<<<2 * x[1], U * o.k>>, <<x[2], x[1] - U>>>>
    [] o.t = "pol1" -> <<<<2 * Mul(x[1], x[2]) + U * o.k, Mul(x[1], x[1])>>>>
    [] o.t = "comp" -> MMul(Jac(h, o.l, Val(h, o.r, x)), Jac(h, o.r, x), DX(h, i))
    [] o.t = "qres" -> LET r == Val(h, o.f, x) IN MMul(<<VAdd(LinV(o.Q, r), S64(o.b))>>, Jac(h, o.f, x), DX(h, i))
    [] o.t = "dist" -> LET m == Space(o.m) r == Diff(m, S64(o.tgt), x) IN MMul(<<LinV(o.Q, r)>>, Jdiff(m, S64(o.tgt), x, 1), DX(h, i))
    [] o.t = "f2c" -> Jac(h, o.f, x)
    [] o.t = "fd2" -> Jac(h, o.f, x)
    [] o.t = "fd1" -> LET m == Space(o.m) IN
        Transp([j \in 1..DX(h, i) |-> FDcol(VSub(Val(h, o.f, Step(m, x, j, o.e)), Val(h, o.f, Step(m, x, j, -o.e))), o.e)], NR(h, i))
JtQJ(Q, J, n) == MMul(Transp(J, n), MMul(MScale(U, Q), J, n), n)
VHP(h, i, x, v) == LET o == h[i] n == DX(h, i) IN
  CASE o.t = "poly" -> <<<<2 * v[1], v[2]>>, <<v[2], 0>>>>
    [] o.t = "pol1" -> <<<<2 * Mul(v[1], x[2]), 2 * Mul(v[1], x[1])>>, <<2 * Mul(v[1], x[1]), 0>>>>
    [] IsCost(o) -> ScaleU(v[1], Hess(h, i, x))
    [] o.t = "fd2" -> LET m == Space(o.m) IN
        Transp([j \in 1..n |-> LET A == Jac(h, o.f, Step(m, x, j, o.e)) B == Jac(h, o.f, Step(m, x, j, -o.e)) IN
                  FDcol([a \in 1..n |-> Sum([q \in 1..Len(A) |-> Mul(A[q][a] - B[q][a], v[q])])], o.e)], n)
    [] OTHER -> ZeroM(n, n)                               \* lin, diff, ldiff, comp: no second-order term
Hess(h, i, x) == LET o == h[i] n == DX(h, i) IN
  CASE o.t = "qres" -> LET r == Val(h, o.f, x) G == JtQJ(o.Q, Jac(h, o.f, x), n) IN
                       IF o.gn THEN G ELSE MAdd(G, VHP(h, o.f, x, VAdd(LinV(o.Q, r), S64(o.b))))
    [] o.t = "dist" -> JtQJ(o.Q, Jdiff(Space(o.m), S64(o.tgt), x, 1), n)
    [] o.t = "f2c" -> VHP(h, o.f, x, <<U>>)

(* ---- steps ---- *)
Put(s, o) == <<Append(heap, o), [ptr EXCEPT ![s] = Len(heap) + 1]>>
Has(s) == ptr[s] # 0
O(s) == heap[ptr[s]]
N(s) == NR(heap, ptr[s])
Enabled(op) ==
  CASE op[1] \in {"lin", "diff", "poly", "pol1", "dist", "ldiff"} -> TRUE
    [] op[1] = "comp" -> Has(op[3]) /\ Has(op[4]) /\ IsC2(O(op[3])) /\ IsC2(O(op[4]))
                         /\ XD(heap, ptr[op[3]]) = N(op[4]) /\ DX(heap, ptr[op[3]]) = N(op[4])
    [] op[1] = "qres" -> Has(op[3]) /\ IsC2(O(op[3])) /\ Len(op[4]) = N(op[3]) /\ Len(op[5]) = N(op[3])
    [] op[1] = "f2c" -> Has(op[3]) /\ IsC2(O(op[3])) /\ N(op[3]) = 1
    [] op[1] = "fd1" -> Has(op[4]) /\ XD(heap, ptr[op[4]]) = NX(Space(op[3])) /\ DX(heap, ptr[op[4]]) = NDX(Space(op[3]))
    [] op[1] = "fd2" -> Has(op[4]) /\ XD(heap, ptr[op[4]]) = NX(Space(op[3])) /\ DX(heap, ptr[op[4]]) = NDX(Space(op[3]))
    [] op[1] = "settgt" -> Has(op[2]) /\ O(op[2]).t = "dist" /\ Len(op[3]) = NX(Space(O(op[2]).m))
    [] op[1] = "gn" -> Has(op[2]) /\ O(op[2]).t = "qres"
    [] op[1] = "cp" -> Has(op[3]) /\ O(op[3]).t = "qres"
    [] op[1] = "alias" -> Has(op[3])
    [] op[1] \in {"v", "J"} -> Has(op[2]) /\ Len(op[3]) = XD(heap, ptr[op[2]])
    [] op[1] = "H" -> Has(op[2]) /\ IsC2(O(op[2])) /\ Len(op[3]) = XD(heap, ptr[op[2]]) /\ Len(op[4]) = N(op[2])
    [] op[1] \in {"c", "g", "h"} -> Has(op[2]) /\ IsCost(O(op[2])) /\ Len(op[3]) = XD(heap, ptr[op[2]])
    [] op[1] = "t" -> Has(op[2]) /\ O(op[2]).t = "dist"
    [] op[1] = "dims" -> Has(op[2])
    [] OTHER -> FALSE
Eff(op) ==
  CASE op[1] = "lin" -> Put(op[2], [t |-> "lin", A |-> op[3], b |-> op[4], n |-> Len(op[3][1])])
    [] op[1] = "diff" -> Put(op[2], [t |-> "diff", m |-> op[3], tgt |-> op[4]])
    [] op[1] = "ldiff" -> Put(op[2], [t |-> "ldiff", m |-> op[3], tgt |-> op[4], A |-> op[5], b |-> op[6]])
    [] op[1] \in {"poly", "pol1"} -> Put(op[2], [t |-> op[1], k |-> op[3]])
    [] op[1] = "comp" -> Put(op[2], [t |-> "comp", l |-> ptr[op[3]], r |-> ptr[op[4]]])
    [] op[1] = "qres" -> Put(op[2], [t |-> "qres", f |-> ptr[op[3]], Q |-> op[4], b |-> op[5], c |-> op[6], gn |-> TRUE])
    \* mode 0: default target and weights, 1: default weights, 2: all given
    [] op[1] = "dist" -> Put(op[2], [t |-> "dist", m |-> op[3],
                            tgt |-> IF op[6] = 0 THEN [i \in 1..Len(op[4]) |-> Neutral(Space(op[3]))[i] \div U] ELSE op[4],
                            Q |-> IF op[6] <= 1 THEN Ident(Len(op[5])) ELSE op[5]])
    [] op[1] = "f2c" -> Put(op[2], [t |-> "f2c", f |-> ptr[op[3]]])
    [] op[1] \in {"fd1", "fd2"} -> Put(op[2], [t |-> op[1], m |-> op[3], f |-> ptr[op[4]], e |-> (U \div 4) * op[5]])
    [] op[1] = "settgt" -> <<[heap EXCEPT ![ptr[op[2]]].tgt = op[3]], ptr>>
    [] op[1] = "gn" -> <<[heap EXCEPT ![ptr[op[2]]].gn = (op[3] = 1)], ptr>>
    [] op[1] = "cp" -> Put(op[2], O(op[3]))
    [] op[1] = "alias" -> <<heap, [ptr EXCEPT ![op[2]] = ptr[op[3]]]>>
    [] OTHER -> <<heap, ptr>>
Result(op) == LET id == ptr[op[2]] IN
  CASE op[1] = "v" -> <<Val(heap, id, S64(op[3]))>>
    [] op[1] = "J" -> <<Jac(heap, id, S64(op[3]))>>
    [] op[1] = "H" -> <<VHP(heap, id, S64(op[3]), S64(op[4]))>>
    [] op[1] = "c" -> Val(heap, id, S64(op[3]))
    [] op[1] = "g" -> Jac(heap, id, S64(op[3]))
    [] op[1] = "h" -> <<Hess(heap, id, S64(op[3]))>>
    [] op[1] = "t" -> <<S64(heap[id].tgt)>>
    [] op[1] = "dims" -> <<XD(heap, id), DX(heap, id), NR(heap, id)>>
    [] OTHER -> <<"ok">>
Init == heap = <<>> /\ ptr = [s \in Slots |-> 0] /\ last = <<>>
OK(hp) == Len(hp) <= MaxHeap /\ LET i == Len(hp) IN Dep(hp, i) <= 3 /\ Deg(hp, i) <= 4 /\
            (hp[i].t \in {"fd1", "fd2"} => DX(hp, i) <= 17)
Do(op) == /\ Enabled(op)
          /\ LET e == Eff(op) IN
             /\ Len(e[1]) > Len(heap) => OK(e[1])
             /\ heap' = e[1] /\ ptr' = e[2]
          /\ last' = <<op, Result(op), heap, ptr>>

(* ---- arguments ---- *)
RInts(n) == [i \in 1..n |-> RandomElement(Par)]
RVec(n) == IF Rand THEN {TLCEval(RInts(n))} ELSE [1..n -> Par]
RMat(r, c) == IF Rand THEN {TLCEval([i \in 1..r |-> RInts(c)])} ELSE [1..r -> [1..c -> Par]]
RSym(n) == IF Rand THEN {TLCEval(LET M == [i \in 1..n |-> RInts(n)] IN [i \in 1..n |-> [j \in 1..n |-> IF i <= j THEN M[i][j] ELSE M[j][i]]])}
           ELSE {M \in [1..n -> [1..n -> Par]] : \A i \in 1..n : \A j \in 1..n : M[i][j] = M[j][i]}
RECURSIVE RPt(_), APts(_)
RPt(m) == CASE m.k = "prod" -> Concat([i \in 1..Len(m.c) |-> RPt(m.c[i])])
            [] m.k = "tb" -> RPt(m.b) \o [i \in 1..NDX(m.b) |-> RandomElement(Coord)]
            [] m.k = "par" -> LET t == RandomElement(Coord) IN <<t, t * t>>
            [] OTHER -> [i \in 1..NX(m) |-> RandomElement(Coord)]
APts(m) == CASE m.k = "par" -> {<<t, t * t>> : t \in Coord}
             [] m.k = "tb" -> {p \o v : p \in APts(m.b), v \in [1..NDX(m.b) -> Coord]}
             [] m.k = "prod" -> IF Len(m.c) = 0 THEN {<<>>}
                                ELSE {p \o q : p \in APts(m.c[1]), q \in APts([k |-> "prod", c |-> Tail(m.c)])}
             [] OTHER -> [1..NX(m) -> Coord]
Pts(m) == IF Rand THEN {TLCEval(RPt(m))} ELSE APts(m)
\* the space the argument of an object lives on
RECURSIVE Dom(_, _)
Dom(h, i) == LET o == h[i] IN CASE o.t = "lin" -> VS(o.n) [] o.t \in {"poly", "pol1"} -> VS(2)
               [] o.t \in {"diff", "dist", "ldiff", "fd1", "fd2"} -> Space(o.m) [] o.t = "comp" -> Dom(h, o.r) [] OTHER -> Dom(h, o.f)

Lin == \E s \in Pick(Slots), r \in Pick(1..2), c \in Pick(1..3) : \E A \in RMat(r, c), b \in RVec(r) : Do(<<"lin", s, A, b>>)
DiffOp == \E s \in Pick(Slots), m \in Pick(SpaceCodes \cap Kinds) : \E t \in Pts(Space(m)) : Do(<<"diff", s, m, t>>)
LDiff == \E s \in Pick(Slots), m \in Pick(SpaceCodes \cap Kinds), r \in Pick(1..2) :
           \E t \in Pts(Space(m)), A \in RMat(r, NDX(Space(m))), b \in RVec(r) : Do(<<"ldiff", s, m, t, A, b>>)
Pol == \E s \in Pick(Slots), k \in Pick(Par), w \in Pick({"poly", "pol1"}) : Do(<<w, s, k>>)
Comp == \E s \in Pick(Slots), l \in Pick(Slots), r \in Pick(Slots) : Do(<<"comp", s, l, r>>)
QRes == \E s \in Pick(Slots), f \in Pick(Slots) : Has(f) /\ \E Q \in RSym(N(f)), b \in RVec(N(f)), c \in Pick(Par) : Do(<<"qres", s, f, Q, b, c>>)
Dist == \E s \in Pick(Slots), m \in Pick(SpaceCodes \cap Kinds), mode \in Pick(0..2) :
           \E t \in Pts(Space(m)), Q \in RSym(NDX(Space(m))) : Do(<<"dist", s, m, t, Q, mode>>)
F2C == \E s \in Pick(Slots), f \in Pick(Slots) : Do(<<"f2c", s, f>>)
FD == \E s \in Pick(Slots), f \in Pick(Slots), m \in Pick(SpaceCodes \cap Kinds), w \in Pick({"fd1", "fd2"}), e \in Pick({2, 4}) : Do(<<w, s, m, f, e>>)
\* wrappers over the space the function is defined on
FDown == \E s \in Pick(Slots), f \in Pick(Slots), w \in Pick({"fd1", "fd2"}), e \in Pick({2, 4}) : Has(f) /\
           \E m \in {q \in SpaceCodes : Space(q) = Dom(heap, ptr[f])} : Do(<<w, s, m, f, e>>)
Mut == \/ \E s \in Pick(Slots) : Has(s) /\ O(s).t = "dist" /\ \E t \in Pts(Space(O(s).m)) : Do(<<"settgt", s, t>>)
       \/ \E s \in Pick(Slots), g \in Pick({0, 1}) : Do(<<"gn", s, g>>)
       \/ \E s \in Pick(Slots), a \in Pick(Slots), w \in Pick({"cp", "alias"}) : Do(<<w, s, a>>)
Build == Lin \/ DiffOp \/ LDiff \/ Pol \/ Comp \/ QRes \/ Dist \/ F2C \/ FD \/ FDown \/ Mut
Quer == \E s \in Pick(Slots) : Has(s) /\ \E x \in Pts(Dom(heap, ptr[s])) :
          \E q \in Pick({"v", "J", "H", "c", "g", "h", "t", "dims"}) :
            IF q = "H" THEN \E v \in RVec(N(s)) : Do(<<q, s, x, v>>)
            ELSE IF q \in {"t", "dims"} THEN Do(<<q, s>>) ELSE Do(<<q, s, x>>)
Next == Build \/ Quer

(* ---- properties ---- *)
Is(q) == last # <<>> /\ last[1][1] = q
\* exact 4th order differences along the function's own space
Exact12(h, i, m, x, j) == VSub(VScale(8, VSub(Val(h, i, Step(m, x, j, U)), Val(h, i, Step(m, x, j, -U)))),
                               VSub(Val(h, i, Step(m, x, j, 2 * U)), Val(h, i, Step(m, x, j, -2 * U))))
JacIsDerivative == Is("J") => LET id == last[4][last[1][2]] h == last[3] m == Dom(h, id) x == S64(last[1][3]) IN
   h[id].t # "fd1" => \A j \in 1..NDX(m) : VScale(12, Col(last[2][1], j)) = Exact12(h, id, m, x, j)
\* finite differences are exact up to degree two
FDExact == Is("J") => LET id == last[4][last[1][2]] h == last[3] IN
   (h[id].t = "fd1" /\ Deg(h, h[id].f) <= 2 /\ Dom(h, h[id].f) = Space(h[id].m)) => last[2][1] = Jac(h, h[id].f, S64(last[1][3]))
RECURSIVE HasVHP(_, _)   \* objects whose second-order term is exact
HasVHP(h, i) == LET o == h[i] IN o.t \in {"lin", "poly", "pol1"} \/ (o.t = "diff" /\ SDeg(o.m) = 1) \/ (o.t = "ldiff" /\ SDeg(o.m) = 1)
              \/ (o.t = "qres" /\ HasVHP(h, o.f) /\ (~o.gn \/ Deg(h, o.f) = 1)) \/ (o.t = "dist" /\ SDeg(o.m) = 1) \/ (o.t = "f2c" /\ HasVHP(h, o.f))
HessIsDerivative == Is("h") => LET id == last[4][last[1][2]] h == last[3] m == Dom(h, id) x == S64(last[1][3])
     G(y) == Jac(h, id, y)[1] IN
   HasVHP(h, id) => \A j \in 1..NDX(m) : VScale(12, Col(last[2][1], j)) =
      VSub(VScale(8, VSub(G(Step(m, x, j, U)), G(Step(m, x, j, -U)))), VSub(G(Step(m, x, j, 2 * U)), G(Step(m, x, j, -2 * U))))
GNHess == Is("h") => LET id == last[4][last[1][2]] h == last[3] IN
   (h[id].t = "dist") => last[2][1] = Transp(last[2][1], DX(h, id))
=============================================================================
