----------------------------- MODULE BlockFactor -----------------------------
(* Block-sparse LDLT (C15): factorisation objects with a block pattern, a     *)
(* block permutation and, once computed, the factors of an integer matrix;    *)
(* and the two numerical kernels, products and triangular solves of blocks.   *)
EXTENDS BlockStructure
VARIABLES f
fvars == <<heap, slot, last, f>>
NoF == [lens |-> <<>>, k |-> <<>>, perm |-> <<>>, st |-> <<>>, done |-> FALSE, raw |-> TRUE, A |-> <<>>, fresh |-> FALSE, z |-> 0]
HasF(s) == f[s].lens # <<>>
In0(o) == [lens |-> o.lens, k |-> o.k]
IdP(n) == [i \in 1..n |-> i - 1]
\* the permuted structure as given (before symbolic factorisation)
Arranged(o) == Permuted(In0(o), o.perm)
NF(o) == Sum(o.lens)
\* scalar indices induced by a block permutation
Indices(o) == Concat([i \in 1..Len(o.perm) |-> [q \in 1..o.lens[o.perm[i] + 1] |-> Off(o.lens)[o.perm[i] + 1] + q - 1]])
StRep(o) == <<Arranged(o).lens, o.st, o.done>>
HasTriL(o) == \E i \in 1..Len(o.st) : \E j \in 1..(i - 1) : o.st[i][j] = 2
Only(k, Z) == UNCHANGED <<heap, slot>> /\ f' = [f EXCEPT ![k] = Z]
Keep == UNCHANGED <<heap, slot, f>>
\* adopt an analysed structure: rs is the reported <<lens, kinds, done>>
Analysed(o, rs) == LltOk(Arranged(o), rs[3], rs[2]) /\ rs[1] = Arranged(o).lens
Adopt(o, p, rs) == [o EXCEPT !.perm = p, !.st = rs[2], !.done = rs[3], !.raw = FALSE, !.fresh = FALSE]
Positive(o) == Cardinality({i \in 1..NF(o) : o.A[i][i] > 0 \/ (o.A[i][i] = 0 /\ o.z > 0)})
Negative(o) == NF(o) - Positive(o)
SignOf(p, n) == IF n = 0 THEN 1 ELSE IF p = 0 THEN -1 ELSE 2
Mask(M, k) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> IF In(k, i, j) THEN M[i][j] ELSE 0]]
NCols(B) == Len(B[1])
\* the triangular matrix described by mode, kinds and storage
Lowr(m) == m \in {0, 1, 5}
UnitT(m) == m \in {1, 3, 4}
TriMat(m, lens, k, L) == LET o == Off(lens) n == Sum(lens) IN
   [i \in 1..n |-> [j \in 1..n |-> LET bi == BlockOf(lens, i) bj == BlockOf(lens, j) IN
      IF i = j THEN (IF UnitT(m) THEN 1 ELSE L[i][j])
      ELSE IF (Lowr(m) /\ i < j) \/ (~Lowr(m) /\ i > j) THEN 0
      ELSE IF In(k[bi][bj], i - o[bi], j - o[bj]) THEN L[i][j] ELSE 0]]
\* a diagonal block that is neither diagonal nor triangular on the right side cannot be solved with
TriOk(m, k) == \A i \in 1..Len(k) : k[i][i] = 1 \/ k[i][i] = (IF Lowr(m) THEN 2 ELSE 3)
FStep(op, r) ==
  LET o == op[1] IN
  IF o = "gemmt" THEN Keep /\ Ret(op, <<"ok", MAdd(op[7], MScale(op[4], MatMul(Mask(op[8], op[2]), Transp(Mask(op[9], op[3]), op[6]), Len(op[9]))))>>)
  ELSE IF o = "tri" THEN /\ Keep /\ Ret(op, r) /\ r[1] = TriOk(op[2], op[6]) /\ r[3]
                         /\ r[1] => MatMul(TriMat(op[2], op[5], op[6], op[7]), r[2], NCols(op[8])) = op[8]
  ELSE LET s == op[2] q == f[s] IN
  CASE o = "fnew" -> Only(s, [NoF EXCEPT !.lens = op[3], !.k = op[4], !.perm = IdP(Len(op[3])), !.st = op[4]]) /\ Ret(op, <<"ok">>)
    [] o = "fdel" -> Only(s, NoF) /\ Ret(op, <<"ok">>)
    [] o \in {"fcopy", "fasg"} -> Only(s, f[op[3]]) /\ Ret(op, <<"ok">>)
    [] o = "fana" -> Ret(op, r) /\ IF q.done THEN r = <<TRUE, StRep(q)>> /\ Keep
                     ELSE /\ Analysed(q, r[2]) /\ r[1] = r[2][3] /\ Only(s, Adopt(q, q.perm, r[2]))
    [] o = "fperm" -> Ret(op, r) /\ r[1] = op[3] /\ \E w \in {[q EXCEPT !.perm = op[3]]} : Analysed(w, r[2]) /\ Only(s, Adopt(w, w.perm, r[2]))
    [] o = "fperm0" -> Ret(op, r) /\ r[1] = q.perm /\ Analysed(q, r[2]) /\ Only(s, Adopt(q, q.perm, r[2]))
    [] o = "fbest" -> Ret(op, r) /\ r[1] \in AllPerms(Len(q.lens)) /\ \E w \in {[q EXCEPT !.perm = r[1]]} :
                      /\ Analysed(w, r[2]) /\ Only(s, Adopt(w, w.perm, r[2]))
                      \* if some order can be factorised, the chosen one can
                      /\ r[2][3] \/ \A p \in AllPerms(Len(q.lens)) : ~CanFactor(Permuted(In0(q), p))
    \* refusing is allowed only for the block kind that has no kernel
    [] o = "fcomp" -> /\ Ret(op, r) /\ r[2] /\ (r[1] \/ HasTriL(q))
                      /\ Only(s, [q EXCEPT !.A = op[3], !.fresh = r[1], !.z = op[5]])
    [] o \in {"fsolve", "frec", "fsig"} /\ ~q.fresh -> Keep /\ Ret(op, r)   \* nothing is promised without a factorisation
    [] o = "fsolve" -> Keep /\ Ret(op, r) /\ r[1] /\ Len(r[2]) = NF(q) /\ MatMul(q.A, r[2], NCols(op[4])) = op[4]
    [] o = "frec" -> Keep /\ Ret(op, <<q.A>>)
    [] o = "fsig" -> Keep /\ Ret(op, <<Positive(q), Negative(q), SignOf(Positive(q), Negative(q))>>)
    [] o = "fget" -> Keep /\ Ret(op, <<q.perm, Indices(q), StRep(q), Len(q.lens)>>)
    [] OTHER -> FALSE
FInit == BInit /\ f = [s \in Slots |-> NoF]
FClear == BClear /\ f' = [s \in Slots |-> NoF]

(* ---- generation ---- *)
RInt(Z) == RandomElement(Z)
Small == (-3)..3
RMat(r, c, Z) == [i \in 1..r |-> [j \in 1..c |-> RandomElement(Z)]]
\* an integer matrix with that structure, dominated by its diagonal (every leading block of every order is regular)
OffVal(st, i, j, w) == LET bi == BlockOf(st.lens, i) bj == BlockOf(st.lens, j) o == Off(st.lens) IN
      IF In(st.k[bi][bj], i - o[bi], j - o[bj]) THEN w ELSE 0
Dominated(st, W, sg, ex) == LET n == Sum(st.lens)
      M == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE IF i > j THEN OffVal(st, i, j, W[i][j]) ELSE OffVal(st, j, i, W[j][i])]]
   IN [i \in 1..n |-> [j \in 1..n |-> IF i # j THEN M[i][j] ELSE sg[i] * (Sum([l \in 1..n |-> Abs(M[i][l])]) + ex[i])]]
\* [H C'; C 0]: H of one sign and dominated, C = [I | W] has full row rank
Saddle(st, W, sg, ex) == LET n == st.lens[1] m == st.lens[2]
      H == Dominated([lens |-> <<n>>, k |-> <<<<st.k[1][1]>>>>], W, [i \in 1..n |-> sg[1]], ex)
   IN [i \in 1..(n + m) |-> [j \in 1..(n + m) |->
        IF i <= n /\ j <= n THEN H[i][j] ELSE IF i > n /\ j > n THEN 0
        ELSE LET p == Max2(i, j) - n c == Min2(i, j) IN IF c <= m THEN (IF p = c THEN 1 ELSE 0) ELSE W[n + p][c]]]
\* <<matrix, sign standing for the zero diagonal entries>> from random data
MatOf(s, W, sg, ex) == LET st == In0(f[s]) IN
   IF \A i \in 1..Len(st.lens) : st.k[i][i] # 0 THEN <<Dominated(st, W, sg, ex), 0>> ELSE <<Saddle(st, W, sg, ex), -sg[1]>>
IsSaddle(lens, k) == Len(lens) = 2 /\ lens[1] >= lens[2] /\ k[2][2] = 0 /\ k[1][1] \in {1, 4} /\ k[2][1] = 4
GoodDiag(k) == \A i \in 1..Len(k) : k[i][i] \in {1, 4}
LiveF == {s \in Slots : HasF(s)}
Ready == {s \in LiveF : f[s].done}
FreshF == {s \in LiveF : f[s].fresh}
FixDiag(lens, k) == IF IsSaddle(lens, k) \/ GoodDiag(k) THEN k ELSE [i \in 1..Len(k) |-> [j \in 1..Len(k) |-> IF i = j /\ k[i][i] \notin {1, 4} THEN 4 ELSE k[i][j]]]
ROff(n) == [i \in 1..n |-> [j \in 1..n |-> RandomElement({0, 0, 1, 3, 4, 2})]]
NewF == \E s \in {RInt(Slots)}, n \in {RInt(1..MaxBlocks)} : \E lens \in {[i \in 1..n |-> RInt(Lens)]}, dk \in {[i \in 1..n |-> DiagKinds[RInt(1..Len(DiagKinds))]]} :
          IF n = 2 /\ RInt(1..4) = 1 /\ lens[1] >= lens[2] THEN FStep(<<"fnew", s, lens, <<<<RInt({1, 4}), 4>>, <<4, 0>>>>>>, 0)
          ELSE \E okr \in {ROff(n)} : \E k0 \in {SymOf(lens, dk, okr)} : \E kk \in {FixDiag(lens, k0)} : FStep(<<"fnew", s, lens, kk>>, 0)
GAdopt(q) == LET x == Factor(Arranged(q)) IN <<Arranged(q).lens, x.k, x.ok>>
PermF == \E s \in {RInt(LiveF)} : \E p \in {RInt(AllPerms(Len(f[s].lens)))}, w \in {RInt(1..4)} :
           IF w = 1 THEN \E q \in {f[s]} : FStep(<<"fperm0", s>>, <<q.perm, GAdopt(q)>>)
           ELSE \E q \in {[f[s] EXCEPT !.perm = p]} : FStep(<<"fperm", s, p>>, <<p, GAdopt(q)>>)
\* the generator's own guess for the best order: the first that can be factorised
BestF == \E s \in {RInt(LiveF)} : LET q == f[s] ok == {p \in AllPerms(Len(q.lens)) : CanFactor(Permuted(In0(q), p))} IN
           IF ok # {} /\ Cardinality(ok) = Cardinality(AllPerms(Len(q.lens)))
           THEN \E p \in {RInt(ok)} : \E w \in {[q EXCEPT !.perm = p]} : FStep(<<"fbest", s>>, <<p, GAdopt(w)>>)
           ELSE FStep(<<"fget", s>>, 0)
AnaF == \E s \in {RInt(LiveF)} : IF f[s].raw \/ f[s].done THEN \E q \in {f[s]} : FStep(<<"fana", s>>, IF q.done THEN <<TRUE, StRep(q)>> ELSE <<GAdopt(q)[3], GAdopt(q)>>) ELSE FStep(<<"fget", s>>, 0)
CompF == IF Ready = {} THEN PermF ELSE \E s \in {RInt(Ready)} : \E n \in {NF(f[s])}, g \in {0} :
           \E W \in {RMat(n, n, -2..2)}, sg \in {[i \in 1..n |-> IF RInt(1..3) = 1 THEN 1 ELSE RInt({-1, 1})]}, ex \in {[i \in 1..n |-> RInt(1..4)]} :
             \E m \in {MatOf(s, W, sg, ex)} : FStep(<<"fcomp", s, m[1], g, m[2]>>, <<~HasTriL(f[s]), TRUE>>)
SolveF == IF FreshF = {} THEN CompF ELSE \E s \in {RInt(FreshF)} : \E how \in {RInt(0..2)}, c \in {RInt(1..3)} : \E X \in {RMat(NF(f[s]), c, Small)} :
            FStep(<<"fsolve", s, how, MatMul(f[s].A, X, c)>>, <<TRUE, X>>)
LookF == IF FreshF = {} THEN CompF ELSE \E s \in {RInt(FreshF)}, w \in {RInt({"frec", "fsig", "fget"})} : FStep(<<w, s>>, 0)
CopyF == \E s \in {RInt(LiveF)}, d \in {RInt(Slots)} : IF HasF(d) /\ RInt(1..2) = 1 THEN FStep(<<"fasg", d, s>>, 0) ELSE FStep(<<"fcopy", d, s>>, 0)
GetF == \E s \in {RInt(LiveF)} : FStep(<<"fget", s>>, 0)
DelF == \E s \in {RInt(LiveF)} : FStep(<<"fdel", s>>, 0)
(* kernels *)
\* kinds of the two operands; rectangular blocks are zero or dense, or upper triangular next to others of these kinds
KFor(r, c) == IF r = c THEN Kinds ELSE {0, 3, 4}
KPair(a, b, m, n, k) == (m # k /\ a = 3 => b \in {0, 3, 4}) /\ (n # k /\ b = 3 => a \in {0, 3, 4})
GDim(d) == IF RInt(1..8) = 1 THEN RInt(4..11) ELSE RInt(1..3)
Gemmt == \E m \in {GDim(0)}, n \in {GDim(1)}, k0 \in {GDim(2)}, eq \in {RInt(1..3)} : \E k \in {IF eq = 1 THEN m ELSE k0} : \E a \in {RInt(KFor(m, k))}, b \in {RInt(KFor(n, k))} :
   \E L \in {Mask(RMat(m, k, -4..4), a)}, R \in {Mask(RMat(n, k, -4..4), b)}, D \in {RMat(m, n, -4..4)}, al \in {RInt({-1, -1, 1, 2, -3, 0})}, w \in {RInt(0..2)} :
     IF ~KPair(a, b, m, n, k) THEN FStep(<<"gemmt", 4, 4, al, w, k, D, L, R>>, 0) ELSE FStep(<<"gemmt", a, b, al, w, k, D, L, R>>, 0)
\* storage: garbage where the mode does not look, powers of two on the diagonal
Store(m, lens, k, W, dg) == LET n == Sum(lens) o == Off(lens) IN [i \in 1..n |-> [j \in 1..n |->
    IF i = j THEN (IF UnitT(m) THEN W[i][j] + 9 ELSE dg[i])
    ELSE IF (Lowr(m) /\ i < j) \/ (~Lowr(m) /\ i > j) THEN 50 + i + j
    ELSE LET bi == BlockOf(lens, i) bj == BlockOf(lens, j) IN IF bi = bj \/ In(k[bi][bj], i - o[bi], j - o[bj]) THEN (IF bi = bj /\ ~In(k[bi][bj], i - o[bi], j - o[bj]) THEN 0 ELSE W[i][j]) ELSE 0]]
TriK(m, lens) == [i \in 1..Len(lens) |-> [j \in 1..Len(lens) |->
    IF i = j THEN (IF RInt(1..8) = 1 THEN RInt(Kinds) ELSE IF RInt(1..3) = 1 THEN 1 ELSE IF Lowr(m) THEN 2 ELSE 3) ELSE IF lens[i] = lens[j] THEN RInt(Kinds) ELSE RInt({0, 4})]]
Tri == \E m \in {RInt(0..5)}, n \in {RInt(1..MaxBlocks)}, c \in {RInt(1..3)}, g \in {RInt({0, 1})}, v \in {RInt({0, 1})} : \E lens \in {[i \in 1..n |-> RInt(Lens)]} :
   \E k \in {TriK(m, lens)} : \E W \in {RMat(Sum(lens), Sum(lens), -2..2)}, dg \in {[i \in 1..Sum(lens) |-> RInt({1, 2, -1, -2, 4})]}, X \in {RMat(Sum(lens), c, Small)} :
     \E L \in {Store(m, lens, k, W, dg)} :
        FStep(<<"tri", m, v, g, lens, k, L, MatMul(TriMat(m, lens, k, L), X, c)>>, <<TriOk(m, k), X, TRUE>>)
Choose(w) == CASE w = 1 -> NewF [] w = 2 -> PermF [] w = 3 -> BestF [] w = 4 -> AnaF [] w \in 5..7 -> CompF [] w \in 8..10 -> SolveF
               [] w \in 11..12 -> LookF [] w = 13 -> CopyF [] w = 14 -> GetF [] w = 15 -> Gemmt [] OTHER -> Tri
FNext == IF LiveF = {} THEN NewF ELSE \E w \in {RInt(1..16)} : Choose(w)
(* ---- design ---- *)
\* a matrix built on a structure fits it
Fits == \A s \in Slots : HasF(s) /\ f[s].A # <<>> =>
          /\ f[s].A = Transp(f[s].A, NF(f[s]))
          /\ \A i \in 1..NF(f[s]), j \in 1..NF(f[s]) : f[s].A[i][j] # 0 => <<i, j>> \in Full(In0(f[s]))
\* an analysed pattern covers the fill of the matrix it will hold
Covered == \A s \in Slots : HasF(s) /\ f[s].done => Fill(Arranged(f[s])) \subseteq Full([lens |-> Arranged(f[s]).lens, k |-> f[s].st])
PermOk == \A s \in Slots : HasF(s) => Indices(f[s]) \in [1..NF(f[s]) -> 0..(NF(f[s]) - 1)] /\ Cardinality({Indices(f[s])[i] : i \in 1..NF(f[s])}) = NF(f[s])
=============================================================================
