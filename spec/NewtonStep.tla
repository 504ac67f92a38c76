----------------------------- MODULE NewtonStep -----------------------------
(* One semi-smooth Newton iteration of the solver on problems with integer     *)
(* data: multiplier estimates, merit function and its derivatives, KKT system, *)
(* inertia correction, residuals and the stopping test.  Everything is exact.  *)
(* Unit of reals: 1/S (the merit value and squares: 1/S^2).  mu, rho, delta    *)
(* and tolerances are in quarters.                                             *)
EXTENDS VUtil
CONSTANTS Rand, Coord, Mus, Rhos, MaxN, MaxBlocks, Ldlts,
          QPool, APool      \* entries of quadratic terms / constraint Jacobians
VARIABLES pb,     \* problem data and solver modes, or NoP
          pr,     \* [mu, rho, cen, lp]: penalty, proximal weight, centre, multiplier estimate
          last
vars == <<pb, pr, last>>
S == 64
NoP == [n |-> 0]
Pick(T) == IF Rand THEN {RandomElement(T)} ELSE T
EQ == 0
NEG == 1
BOX == 2
L1 == 3

(* ---- problem functions, in units 1/S, at integer coordinates ---- *)
Rows(p) == Concat([i \in 1..Len(p.blk) |-> [r \in 1..Len(p.blk[i].A) |-> <<i, r>>]])
NC(p) == Sum([i \in 1..Len(p.blk) |-> Len(p.blk[i].A)])
FVal2(p, x) == LET q == MatVec(p.Q, x) IN (Dot(x, q) * S * S) \div 2 + S * S * (Dot(p.q, x) + p.k3 * x[1] * x[1] * x[1])
FGrad(p, x) == LET q == MatVec(p.Q, x) IN [i \in 1..p.n |-> S * (q[i] + p.q[i] + (IF i = 1 THEN 3 * p.k3 * x[1] * x[1] ELSE 0))]
FHess(p, x) == [i \in 1..p.n |-> [j \in 1..p.n |-> S * (p.Q[i][j] + (IF i = 1 /\ j = 1 THEN 6 * p.k3 * x[1] ELSE 0))]]
CVal(p, x) == LET R == Rows(p) IN
  [k \in 1..Len(R) |-> LET b == p.blk[R[k][1]] r == R[k][2] IN S * (Dot(b.A[r], x) + b.b[r] + b.w[r] * x[b.j] * x[b.j])]
CJac(p, x) == LET R == Rows(p) IN
  [k \in 1..Len(R) |-> LET b == p.blk[R[k][1]] r == R[k][2] IN
     [j \in 1..p.n |-> S * (b.A[r][j] + (IF j = b.j THEN 2 * b.w[r] * x[j] ELSE 0))]]
Row(p, k) == LET rr == Rows(p)[k] b == p.blk[rr[1]] IN [t |-> b.k[rr[2]], lo |-> S * b.lo[rr[2]], hi |-> S * b.hi[rr[2]]]

(* ---- sets, row by row; m is the proximal parameter in units 1/S ---- *)
Prox(s, z, m) == CASE s.t = EQ -> 0 [] s.t = NEG -> Min2(z, 0) [] s.t = BOX -> Max2(Min2(z, s.hi), s.lo)
                   [] s.t = L1 -> Sgn(z) * Max2(Abs(z) - m, 0)
NCone(s, z, m) == z - Prox(s, z, m)
Active(s, z, m) == CASE s.t = EQ -> TRUE [] s.t = NEG -> z > 0 [] s.t = BOX -> z > s.hi \/ z < s.lo [] s.t = L1 -> Abs(z) <= m
SetVal(s, y) == IF s.t = L1 THEN Abs(y) ELSE 0    \* value at the prox point (other sets: 0)

(* ---- multiplier estimates ---- *)
RowsOf(p, F(_)) == [k \in 1..NC(p) |-> F(k)]
MuS(mu) == 16 * mu
Shift(p, r, c) == RowsOf(p, LAMBDA k : c[k] + 16 * r.mu * r.lp[k])
ShiftPd(p, r, c, lam) == RowsOf(p, LAMBDA k : c[k] + 16 * r.mu * r.lp[k] - 8 * r.mu * lam[k])
Plus(p, r, sh) == RowsOf(p, LAMBDA k : (4 * NCone(Row(p, k), sh[k], MuS(r.mu))) \div r.mu)
Pdal(p, r, sp) == RowsOf(p, LAMBDA k : (8 * NCone(Row(p, k), sp[k], MuS(r.mu))) \div r.mu)
Reproj(p, r, z, v) == RowsOf(p, LAMBDA k : IF Active(Row(p, k), z[k], MuS(r.mu)) THEN 0 ELSE v[k])
JtV(p, J, v) == [j \in 1..p.n |-> Sum([k \in 1..NC(p) |-> (J[k][j] \div S) * v[k]])]

Ev(p, r, x, lam) ==
  LET c == CVal(p, x) J == CJac(p, x) sh == Shift(p, r, c) sp == ShiftPd(p, r, c, lam)
      pl == Plus(p, r, sh) pd == Pdal(p, r, sp)
      zz == IF p.kkt = 0 THEN sh ELSE sp
      act == RowsOf(p, LAMBDA k : Active(Row(p, k), sh[k], MuS(r.mu)))
      Jp == RowsOf(p, LAMBDA k : IF Active(Row(p, k), zz[k], MuS(r.mu)) THEN J[k] ELSE Zeros(p.n)) IN
  [f2 |-> FVal2(p, x), g |-> FGrad(p, x), c |-> c, J |-> J, sh |-> sh, sp |-> sp, pl |-> pl, pd |-> pd,
   plr |-> Reproj(p, r, sh, pl), pdr |-> Reproj(p, r, sp, pd), act |-> act, Jp |-> Jp]

\* vector-Hessian product of block i at the primal-dual estimate
Vhp(p, e, i) == LET R == Rows(p) b == p.blk[i] IN
  Sum([k \in 1..Len(R) |-> IF R[k][1] = i THEN 2 * b.w[R[k][2]] * e.pd[k] ELSE 0])
ObjHess(p, x) == IF p.hess = 3 THEN MScale(S, Ident(p.n)) ELSE FHess(p, x)
UseVhp(p, i) == p.blk[i].gn \/ p.hess = 0
\* primal-dual augmented Lagrangian, units 1/S^2
Merit2(p, r, x, lam, e) ==
  e.f2 + Sum([k \in 1..NC(p) |->
     LET s == Row(p, k) nz == NCone(s, e.sp[k], MuS(r.mu)) IN
     2 * S * SetVal(s, e.sp[k] - nz) + (4 * nz * nz) \div r.mu + (S * S * r.mu * lam[k] * lam[k]) \div 16])
Prox2(p, r, x) == LET d == VSub(x, r.cen) IN (S * S * r.rho * Dot(d, d)) \div 8
ProxG(p, r, x) == [j \in 1..p.n |-> 16 * r.rho * (x[j] - r.cen[j])]
MGrad(p, e) == VAdd(e.g, JtV(p, e.J, e.pd))
MDual(p, r, lam, e) == RowsOf(p, LAMBDA k : (r.mu * (S * lam[k] - e.pd[k])) \div 8)

HTop(p, r, x, e) == LET H == ObjHess(p, x) IN
  [a \in 1..p.n |-> [b \in 1..p.n |->
     H[a][b] + (IF a = b THEN 16 * r.rho ELSE 0) + Sum([i \in 1..Len(p.blk) |-> IF UseVhp(p, i) /\ a = b /\ a = p.blk[i].j THEN Vhp(p, e, i) ELSE 0])]]
\* lower right diagonal, in quarters times 2
Dlow(p, r, e) == RowsOf(p, LAMBDA k : IF p.kkt = 1 /\ ~Active(Row(p, k), e.sp[k], MuS(r.mu)) THEN r.mu ELSE 2 * r.mu)
Kkt(p, r, x, e) ==
  LET H == HTop(p, r, x, e) m == NC(p) D == Dlow(p, r, e) IN
  [a \in 1..(p.n + m) |-> [b \in 1..(p.n + m) |->
     CASE a <= p.n /\ b <= p.n -> H[a][b]
       [] a <= p.n /\ b > p.n -> e.Jp[b - p.n][a]
       [] a > p.n /\ b <= p.n -> e.Jp[a - p.n][b]
       [] OTHER -> IF a = b THEN -8 * D[a - p.n] ELSE 0]]
LagGrad(p, lam, e) == VAdd(e.g, JtV(p, e.J, VScale(S, lam)))
RhsTop(p, r, x, lam, e) == LET t == LagGrad(p, lam, e) IN IF r.rho > 0 THEN VAdd(t, ProxG(p, r, x)) ELSE t
RhsLow(p, r, lam, e) == RowsOf(p, LAMBDA k : IF p.kkt = 0 THEN (r.mu * (e.pl[k] - S * lam[k])) \div 4 ELSE (r.mu * (e.pd[k] - S * lam[k])) \div 8)
Corr(p, lam, e) == VAdd(VSub(JtV(p, e.Jp, VScale(S, lam)), JtV(p, e.J, VScale(S, lam))), JtV(p, e.J, IF p.kkt = 0 THEN e.plr ELSE e.pdr))

PrimViol(p, r, lam, e) == [i \in 1..Len(p.blk) |->
  LET R == Rows(p) IN MaxSeq0([k \in 1..Len(R) |-> IF R[k][1] = i THEN Abs(e.c[k] - Prox(Row(p, k), e.c[k] + 16 * r.mu * lam[k], MuS(r.mu))) ELSE 0])]

(* ---- inertia: Schur complement of the (negative definite) lower right block, in quarters ---- *)
Schur4(p, r, x, e) == LET H == HTop(p, r, x, e) D == Dlow(p, r, e) IN
  [a \in 1..p.n |-> [b \in 1..p.n |->
     H[a][b] \div 16 + Sum([k \in 1..NC(p) |-> (((e.Jp[k][a] \div S) * (e.Jp[k][b] \div S)) * 32) \div D[k]])]]
Det(M) == CASE Len(M) = 1 -> M[1][1]
            [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
            [] Len(M) = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                             + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Lead(M, k) == [a \in 1..k |-> [b \in 1..k |-> M[a][b]]]
PosDef(M) == \A k \in 1..Len(M) : Det(Lead(M, k)) > 0
ShiftM(M, d) == [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> M[a][b] + (IF a = b THEN d ELSE 0)]]
\* positive eigenvalues of a nonsingular symmetric matrix: sign changes of the characteristic polynomial
CharPoly(M) == LET n == Len(M) IN
  CASE n = 1 -> <<1, -M[1][1]>>
    [] n = 2 -> <<1, -(M[1][1] + M[2][2]), Det(M)>>
    [] n = 3 -> <<1, -(M[1][1] + M[2][2] + M[3][3]),
                  (M[1][1] * M[2][2] - M[1][2] * M[2][1]) + (M[1][1] * M[3][3] - M[1][3] * M[3][1]) + (M[2][2] * M[3][3] - M[2][3] * M[3][2]), -Det(M)>>
SignChanges(s) == LET t == SelectSeq(s, LAMBDA v : v # 0) IN Cardinality({i \in 1..(Len(t) - 1) : Sgn(t[i]) # Sgn(t[i + 1])})
NPos(M) == SignChanges(CharPoly(M))

\* values of the regularisation that are tried in the first iteration of a call
RECURSIVE Ladder(_, _, _)
Ladder(M, d, o) == IF d > o.dmax THEN <<>>
                   ELSE IF PosDef(ShiftM(M, d)) THEN <<d>>
                   ELSE <<d>> \o Ladder(M, IF d = 0 THEN o.dnz ELSE d * o.big, o)
Regular(M, o) == LET L == Ladder(M, o.d0, o) IN \A i \in 1..Len(L) : Det(ShiftM(M, L[i])) # 0
BigEnough(M) == \A a \in 1..Len(M) : \A b \in 1..Len(M) : Abs(M[a][b]) <= (IF Len(M) = 3 THEN 500 ELSE 12000)

(* ---- results ---- *)
MuR(mu) == <<16 * mu, 256 \div mu>>        \* mu and 1/mu in units 1/S
QRes(p, r, x, lam) == LET e == Ev(p, r, x, lam) IN
  [f2 |-> e.f2, g |-> e.g, c |-> e.c, J |-> e.J, sh |-> e.sh, sp |-> e.sp, pl |-> e.pl, pd |-> e.pd, plr |-> e.plr, pdr |-> e.pdr, Jp |-> e.Jp,
   m2 |-> Merit2(p, r, x, lam, e), mg |-> MGrad(p, e), md |-> MDual(p, r, lam, e), K |-> Kkt(p, r, x, e),
   H |-> ObjHess(p, x), viol |-> PrimViol(p, r, lam, e), mus |-> [i \in 1..Len(p.blk) |-> MuR(r.mu)], w |-> 16 * r.rho]
Reached(p, r, x, lam, e, o) ==   \* stopping test of the inner loop
  LET rhs == RhsTop(p, r, x, lam, e) \o RhsLow(p, r, lam, e)
      pe == MaxSeq0(PrimViol(p, r, lam, e)) de == Normi(LagGrad(p, lam, e)) IN
  (o.itol >= 0 /\ Normi(rhs) <= 16 * o.itol) \/ (o.ttol >= 0 /\ Max2(pe, de) <= 16 * o.ttol)
IRes(p, r, x, lam, o) ==
  LET e == Ev(p, r, x, lam) top == RhsTop(p, r, x, lam, e) low == RhsLow(p, r, lam, e) stop == Reached(p, r, x, lam, e, o)
      M == Schur4(p, r, x, e) L == Ladder(M, o.d0, o) d == L[Len(L)] np == NPos(ShiftM(M, d))
      base == [stop |-> stop, pe |-> MaxSeq0(PrimViol(p, r, lam, e)), de |-> Normi(LagGrad(p, lam, e)), viol |-> PrimViol(p, r, lam, e),
               act |-> e.act, val2 |-> e.f2] IN
  IF stop THEN base @@ [rhs |-> top \o low, m2 |-> Merit2(p, r, x, lam, e) + (IF r.rho > 0 THEN Prox2(p, r, x) ELSE 0), cbs |-> 0, it |-> 0]
  ELSE base @@ [rhs |-> VAdd(top, Corr(p, lam, e)) \o low, K |-> Kkt(p, r, x, e), cbs |-> 1, it |-> 1, delta |-> d,
                sig |-> <<np, NC(p) + p.n - np, 0>>, flag |-> 1,
                mg |-> IF r.rho > 0 THEN VAdd(MGrad(p, e), ProxG(p, r, x)) ELSE MGrad(p, e), md |-> MDual(p, r, lam, e)]

(* ---- actions ---- *)
NewP(p) == /\ pb' = p /\ pr' = [mu |-> 4, rho |-> 0, cen |-> Zeros(p.n), lp |-> Zeros(NC(p))]
           /\ last' = <<<<"new", p.n, p.par, p.Q, p.q, p.k3,
                         [i \in 1..Len(p.blk) |-> LET b == p.blk[i] IN <<b.k, b.lo, b.hi, b.gn, b.prod, b.A, b.b, b.w, b.j>>], p.kkt, p.hess, p.ldlt>>,
                        [ok |-> TRUE]>>
Pen(m) == pb.n > 0 /\ pr' = [pr EXCEPT !.mu = m] /\ last' = <<<<"pen", m>>, [ok |-> TRUE]>> /\ UNCHANGED pb
Rho(m) == pb.n > 0 /\ pr' = [pr EXCEPT !.rho = m] /\ last' = <<<<"rho", m>>, [ok |-> TRUE]>> /\ UNCHANGED pb
Cen(x) == pb.n > 0 /\ pr' = [pr EXCEPT !.cen = x] /\ last' = <<<<"cen", x>>, [ok |-> TRUE]>> /\ UNCHANGED pb
Lp(v) == pb.n > 0 /\ pr' = [pr EXCEPT !.lp = v] /\ last' = <<<<"lp", v>>, [ok |-> TRUE]>> /\ UNCHANGED pb
Mode(k, h) == /\ pb.n > 0 /\ ~(h = 3 /\ \E i \in 1..Len(pb.blk) : pb.blk[i].gn)
              /\ pb' = [pb EXCEPT !.kkt = k, !.hess = h] /\ last' = <<<<"mode", k, h>>, [ok |-> TRUE]>> /\ UNCHANGED pr
Qry(x, lam) == pb.n > 0 /\ last' = <<<<"q", x, lam>>, QRes(pb, pr, x, lam)>> /\ UNCHANGED <<pb, pr>>
\* inside the domain of the exact model of the factorisation
ModeOk(h) == ~(h = 3 /\ \E i \in 1..Len(pb.blk) : pb.blk[i].gn)
Usable(p, r, x, lam, o) ==
  o.d0 <= o.dmax /\
  LET e == Ev(p, r, x, lam) M == Schur4(p, r, x, e) IN
  Reached(p, r, x, lam, e, o) \/
  (/\ r.mu \in {2, 4, 8} /\ BigEnough(M) /\ BigEnough(ShiftM(M, o.dmax)) /\ Regular(M, o)
   /\ (p.ldlt = 1 \/ LET H == HTop(p, r, x, e) IN PosDef(ShiftM([a \in 1..p.n |-> [b \in 1..p.n |-> H[a][b] \div 16]], o.d0))))
Inner(x, lam, o) == /\ pb.n > 0 /\ Usable(pb, pr, x, lam, o)
                    /\ last' = <<<<"i", x, lam, o.itol, o.ttol, o.d0, o.dnz, o.big, o.dmax>>, IRes(pb, pr, x, lam, o)>> /\ UNCHANGED <<pb, pr>>
InertiaOf(s) == <<Cardinality({i \in 1..Len(s) : s[i] = 1}), Cardinality({i \in 1..Len(s) : s[i] = -1}), Cardinality({i \in 1..Len(s) : s[i] = 0})>>
CI(n, m, s) == /\ last' = <<<<"ci", n, m, s>>,
                   IF \E i \in 1..Len(s) : s[i] \notin {-1, 0, 1} THEN [thrown |-> TRUE]
                   ELSE LET t == InertiaOf(s) IN [thrown |-> FALSE, t |-> t, fl |-> IF t[3] > 0 THEN 2 ELSE IF t[1] = n /\ t[2] = m THEN 0 ELSE 1]>>
               /\ UNCHANGED <<pb, pr>>

(* ---- data ---- *)
RECURSIVE RVec(_, _)
RVec(T, n) == IF n = 0 THEN {<<>>} ELSE {<<a>> \o v : a \in Pick(T), v \in RVec(T, n - 1)}
SymFrom(n, v) == LET off(a, b) == IF a = 1 THEN v[n + b - 1] ELSE v[n + 3] IN
  [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN v[a] ELSE off(Min2(a, b), Max2(a, b))]]
RBlk(n) ==
  UNION { { [k |-> IF pd = 0 THEN [i \in 1..nr |-> ks[1]] ELSE ks, lo |-> lo, hi |-> [i \in 1..nr |-> lo[i] + hi[i]], gn |-> (g = 1 /\ pd = 0), prod |-> pd,
             A |-> A, b |-> b, w |-> w, j |-> j] :
             ks \in RVec({EQ, NEG, BOX, L1}, nr), lo \in RVec({-3, -1, 0}, nr), hi \in RVec({0, 2, 4}, nr), pd \in Pick({0, 1}), g \in Pick({0, 1}),
             A \in (IF nr = 0 THEN {<<>>} ELSE IF nr = 1 THEN {<<a>> : a \in RVec(APool, n)} ELSE {<<a1, a2>> : a1 \in RVec(APool, n), a2 \in RVec(APool, n)}),
             b \in RVec(-4..4, nr), w \in RVec({-1, 0, 0, 1}, nr), j \in Pick(1..n)} : nr \in Pick({1, 1, 2}) }
RECURSIVE RBlks(_, _)
RBlks(n, k) == IF k = 0 THEN {<<>>} ELSE {<<b>> \o r : b \in RBlk(n), r \in RBlks(n, k - 1)}
RProb(zz) ==
  UNION { { [n |-> n, par |-> par, Q |-> SymFrom(n, qv), q |-> q, k3 |-> k3, kkt |-> kk, hess |-> hh, ldlt |-> ld,
             blk |-> [i \in 1..Len(bl) |-> [bl[i] EXCEPT !.gn = bl[i].gn /\ hh # 3]]] :
      par \in Pick({0, 0, 1}), qv \in RVec(QPool, (n * (n + 1)) \div 2), q \in RVec(-3..3, n), k3 \in Pick({0, 0, 0, 1}),
      bl \in UNION {RBlks(n, nb) : nb \in Pick(0..MaxBlocks)}, kk \in Pick({0, 1}), hh \in Pick({0, 1, 1, 3}), ld \in Pick(Ldlts) } : n \in Pick(1..MaxN) }
Opts(zz) == {[itol |-> it, ttol |-> tt, d0 |-> d0, dnz |-> dnz, big |-> bg, dmax |-> dm] :
           it \in Pick({-1, -1, 0, 8, 40}), tt \in Pick({-1, -1, 0, 4, 20}), d0 \in Pick({0, 0, 1, 8}), dnz \in Pick({1, 2, 8}), bg \in Pick({2, 4}), dm \in Pick({0, 16, 80, 200})}
RSig(zz) == RVec({-1, 0, 1}, RandomElement(0..6)) \cup RVec({-1, 1}, RandomElement(1..6)) \cup (IF RandomElement(1..6) = 1 THEN {<<1, 2>>, <<-2>>} ELSE {})
\* small exhaustive family for the design check
DProb == { [n |-> 1, par |-> 0, Q |-> <<<<qq>>>>, q |-> <<-1>>, k3 |-> 0, kkt |-> kk, hess |-> 1, ldlt |-> 1,
            blk |-> <<[k |-> <<kd>>, lo |-> <<-1>>, hi |-> <<1>>, gn |-> FALSE, prod |-> 0, A |-> <<<<a>>>>, b |-> <<b>>, w |-> <<ww>>, j |-> 1]>>] :
            qq \in {-2, 2}, kk \in {0, 1}, kd \in {EQ, NEG, BOX, L1}, a \in {-1, 2}, b \in {0, 1}, ww \in {0, 1} }
DOpt == [itol |-> 0, ttol |-> -1, d0 |-> 0, dnz |-> 2, big |-> 4, dmax |-> 80]
DNext == \/ pb = NoP /\ \E p \in DProb : NewP(p)
         \/ pb # NoP /\ last[1][1] \in {"new", "lp", "pen", "rho"} /\
            (\/ \E m \in Mus : Pen(m)
             \/ \E m \in Rhos : Rho(m)
             \/ \E v \in RVec({-1, 0, 2}, 1) : Lp(v)
             \/ \E x \in RVec(Coord, 1), v \in RVec({-1, 0, 1}, 1) : Qry(x, v)
             \/ \E x \in RVec(Coord, 1), v \in RVec({-1, 0, 1}, 1) : Inner(x, v, DOpt))
IsQ == last # <<>> /\ last[1][1] = "q"
QX == last[1][2]
QL == last[1][3]
ActPd(p, r, x, lam) == LET e == Ev(p, r, x, lam) IN [k \in 1..NC(p) |-> LET s == Row(p, k) IN
   CASE s.t = L1 -> (IF Abs(e.sp[k]) <= MuS(r.mu) THEN 0 ELSE Sgn(e.sp[k])) [] s.t = BOX -> (IF e.sp[k] > s.hi THEN 1 ELSE IF e.sp[k] < s.lo THEN -1 ELSE 0)
     [] OTHER -> IF Active(s, e.sp[k], MuS(r.mu)) THEN 1 ELSE 0]
M2(x, lam) == Merit2(pb, pr, x, lam, Ev(pb, pr, x, lam))
\* the gradients are the derivatives of the value: exact central differences wherever the piece does not change
GradientsExact == IsQ /\ pb.blk[1].w[1] = 0 =>
  /\ \A i \in 1..pb.n : LET xp == [QX EXCEPT ![i] = @ + 1] xm == [QX EXCEPT ![i] = @ - 1] IN
       ActPd(pb, pr, xp, QL) = ActPd(pb, pr, QX, QL) /\ ActPd(pb, pr, xm, QL) = ActPd(pb, pr, QX, QL)
         => M2(xp, QL) - M2(xm, QL) = 2 * S * last[2].mg[i]
  /\ \A k \in 1..NC(pb) : LET lp == [QL EXCEPT ![k] = @ + 1] lm == [QL EXCEPT ![k] = @ - 1] IN
       ActPd(pb, pr, QX, lp) = ActPd(pb, pr, QX, QL) /\ ActPd(pb, pr, QX, lm) = ActPd(pb, pr, QX, QL)
         => M2(QX, lp) - M2(QX, lm) = 2 * S * last[2].md[k]
KktSymmetric == IsQ => last[2].K = Transp(last[2].K, Len(last[2].K))
\* a step is computed with exactly the desired inertia, or the ladder was exhausted
InertiaRight == last # <<>> /\ last[1][1] = "i" /\ ~last[2].stop =>
  LET K == last[2].K d == last[2].delta dt == ((K[1][1] + 16 * d) * K[2][2] - K[1][2] * K[2][1]) IN
  \/ dt < 0 /\ last[2].sig = <<1, 1, 0>>
  \/ dt > 0 /\ last[2].sig = <<0, 2, 0>> /\ DOpt.dmax < (IF d = 0 THEN DOpt.dnz ELSE d * DOpt.big)
\* an exactly solved subproblem at its own multiplier estimate is feasible and stationary
FixedPoint == last # <<>> /\ last[1][1] = "i" /\ last[2].stop /\ pr.rho = 0 /\ last[1][3] = pr.lp => last[2].pe = 0 /\ last[2].de = 0
Init == pb = NoP /\ pr = <<>> /\ last = <<>>
=============================================================================
