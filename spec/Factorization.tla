---------------------------- MODULE Factorization ----------------------------
(* Solver objects for symmetric systems (C16).  A matrix is a history: start  *)
(* from a block diagonal one of known inertia and apply congruences (row and  *)
(* column operations, exchanges); by Sylvester's law every step keeps the     *)
(* inertia.  Saddle-point matrices [H C'; C -E] have inertia (n, m).          *)
EXTENDS VUtil
CONSTANTS Slots, Sizes, Weights
VARIABLES obj, last
zvars == <<obj, last>>

(* ---- matrices ---- *)
\* D: sequence of <<v>> (1x1) or <<a, b, c>> (2x2: [[a, b], [b, c]])
Size(D) == Sum([i \in 1..Len(D) |-> IF Len(D[i]) = 1 THEN 1 ELSE 2])
RECURSIVE Diagonal(_)
Diagonal(D) == IF D = <<>> THEN <<>>
   ELSE LET d == D[1] r == IF Len(d) = 1 THEN <<<<d[1]>>>> ELSE <<<<d[1], d[2]>>, <<d[2], d[3]>>>>
            p == Len(r) T == Diagonal(Tail(D)) q == Len(T)
        IN [i \in 1..(p + q) |-> [j \in 1..(p + q) |-> IF i <= p /\ j <= p THEN r[i][j] ELSE IF i > p /\ j > p THEN T[i - p][j - p] ELSE 0]]
\* o = <<0, i, j, c>>: row i += c row j (and columns);  <<1, i, j>>: exchange
Cong(M, o) == IF o[1] = 0
   THEN LET R == [M EXCEPT ![o[2]] = [l \in 1..Len(M) |-> @[l] + o[4] * M[o[3]][l]]] IN [a \in 1..Len(M) |-> [R[a] EXCEPT ![o[2]] = @ + o[4] * R[a][o[3]]]]
   ELSE LET s(a) == IF a = o[2] THEN o[3] ELSE IF a = o[3] THEN o[2] ELSE a IN [a \in 1..Len(M) |-> [b \in 1..Len(M) |-> M[s(a)][s(b)]]]
Build(D, ops) == FoldLeft(LAMBDA M, o : Cong(M, o), Diagonal(D), ops)
Kkt(D, ops, E, C, sg) == LET H == Build(D, ops) n == Len(H) m == Len(E) IN
   [i \in 1..(n + m) |-> [j \in 1..(n + m) |-> sg * (IF i <= n /\ j <= n THEN H[i][j] ELSE IF i > n /\ j > n THEN (IF i = j THEN -E[i - n] ELSE 0)
                                                     ELSE IF i > n THEN C[i - n][j] ELSE C[j - n][i])]]
Det2(d) == d[1] * d[3] - d[2] * d[2]
In1(d) == IF Len(d) = 1 THEN <<IF d[1] > 0 THEN 1 ELSE 0, IF d[1] < 0 THEN 1 ELSE 0, IF d[1] = 0 THEN 1 ELSE 0>>
          ELSE LET t == d[1] + d[3] IN
               IF Det2(d) < 0 THEN <<1, 1, 0>> ELSE IF Det2(d) > 0 THEN (IF t > 0 THEN <<2, 0, 0>> ELSE <<0, 2, 0>>)
               ELSE <<IF t > 0 THEN 1 ELSE 0, IF t < 0 THEN 1 ELSE 0, IF t = 0 THEN 2 ELSE 1>>
Inertia(D) == FoldLeft(LAMBDA a, d : VAdd(a, In1(d)), <<0, 0, 0>>, D)
KktInertia(D, E, sg) == IF sg > 0 THEN <<Size(D), Len(E), 0>> ELSE <<Len(E), Size(D), 0>>
Definite(D) == Inertia(D)[1] = Size(D)

(* ---- an independent oracle for small matrices: characteristic polynomial, Descartes ---- *)
Trace(M) == Sum([i \in 1..Len(M) |-> M[i][i]])
RECURSIVE Coefs(_, _, _, _)
Coefs(A, N, k, acc) == IF k > Len(A) THEN acc
   ELSE LET AN == MatMul(A, N, Len(A)) c == -(Trace(AN) \div k) IN
        Coefs(A, [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> AN[i][j] + (IF i = j THEN c ELSE 0)]], k + 1, Append(acc, c))
CharPoly(A) == Coefs(A, Ident(Len(A)), 1, <<1>>)      \* of x^n, ..., x^0
Changes(s) == LET z == SelectSeq(s, LAMBDA x : x # 0) IN Cardinality({i \in 1..(Len(z) - 1) : z[i] * z[i + 1] < 0 \/ (z[i] < 0) # (z[i + 1] < 0)})
Eigen(A) == LET p == CharPoly(A) pos == Changes(p) neg == Changes([i \in 1..Len(p) |-> IF i % 2 = 1 THEN p[i] ELSE -p[i]]) IN <<pos, neg, Len(A) - pos - neg>>

(* ---- solver objects ---- *)
Backends == <<"dense", "block", "eigen", "bk">>
NoObj == [b |-> 0, n |-> 0, np |-> 0, nd |-> 0, inertia |-> <<>>, ok |-> FALSE, sing |-> FALSE]
Ret(op, r) == last' = <<op, r>>
X0(n, c, seed) == [i \in 1..n |-> [j \in 1..c |-> (((i * 7 + j * 3 + seed) % 5) - 2)]]
SignOf(p) == IF p[2] = 0 THEN 1 ELSE IF p[1] = 0 THEN -1 ELSE 2
HasSign(b) == b \in {1, 2}
\* result of a factorisation: success, inertia, reconstruction, overall sign (0 when the backend has none)
Facto(op, s, In) == LET b == obj[s].b n == Sum(In) IN
   /\ Ret(op, <<TRUE, In, TRUE, IF HasSign(b) THEN SignOf(In) ELSE 0>>)
   /\ obj' = [obj EXCEPT ![s].n = n, ![s].inertia = In, ![s].ok = TRUE, ![s].sing = FALSE]
ZStep(op, r) ==
  LET o == op[1] IN
  CASE o = "new" -> obj' = [obj EXCEPT ![op[2]] = [NoObj EXCEPT !.b = op[3], !.np = Sum(op[4]), !.nd = Sum(op[5])]] /\ Ret(op, <<Backends[op[3]]>>)
    \* the back-end which is not compiled in is refused
    [] o = "newbad" -> UNCHANGED obj /\ Ret(op, <<"refused">>)
    [] o \in {"copy", "asg"} -> obj' = [obj EXCEPT ![op[2]] = obj[op[3]]] /\ Ret(op, <<"ok">>)
    [] o = "fac" -> IF Inertia(op[3])[3] = 0 THEN Facto(op, op[2], Inertia(op[3]))
                    \* exactly singular (zero rows, decoupled singular blocks): the failure is reported, the signature still true
                    ELSE /\ Ret(op, <<FALSE, Inertia(op[3]), TRUE, 0>>)
                         /\ obj' = [obj EXCEPT ![op[2]].ok = FALSE, ![op[2]].sing = TRUE]
    [] o = "kkt" -> Facto(op, op[2], KktInertia(op[3], op[5], op[7]))
    [] o = "solve" -> UNCHANGED obj /\ (IF obj[op[2]].ok THEN Ret(op, <<TRUE, X0(obj[op[2]].n, op[4], op[5])>>) ELSE Ret(op, r))
    [] o = "mat" -> UNCHANGED obj /\ Ret(op, <<Build(op[2], op[3])>>)
    \* complex Hermitian matrices (Bunch-Kaufman): solution of the plain or adjoint system
    [] o = "cplx" -> UNCHANGED obj /\ Ret(op, <<TRUE, <<0, 0, 0>>, TRUE>>)
    [] o = "float" -> UNCHANGED obj /\ Ret(op, <<TRUE, Inertia(op[2]), TRUE>>)
    [] o = "tuple" -> UNCHANGED obj /\ Ret(op, IF \A i \in 1..Len(op[2]) : op[2][i] \in {-1, 0, 1}
                         THEN <<[k \in 1..3 |-> Cardinality({i \in 1..Len(op[2]) : op[2][i] = <<1, -1, 0>>[k]})]>> ELSE <<"refused">>)
    [] OTHER -> FALSE
ZInit == obj = [s \in Slots |-> NoObj] /\ last = <<>>
ZClear == obj' = [s \in Slots |-> NoObj] /\ last' = <<>>

(* ---- generation ---- *)
RInt(Z) == RandomElement(Z)
RSeq(n, Z) == [i \in 1..n |-> RandomElement(Z)]
ROps(n, k, low) == IF n < 2 THEN <<>> ELSE [l \in 1..k |-> LET i == RandomElement(1..n) j == RandomElement(1..n) c == RandomElement({-1, 1, 1, 2}) t == RandomElement(1..3) IN <<i, j, c, t>>]
MkOps(n, raw, low) == [l \in 1..Len(raw) |-> LET w == raw[l] j == IF w[1] = w[2] THEN (w[1] % n) + 1 ELSE w[2] IN
    IF low THEN <<0, Max2(w[1], j), Min2(w[1], j), w[3]>> ELSE IF w[4] = 1 THEN <<1, w[1], j>> ELSE <<0, w[1], j, w[3]>>]
Ones == {<<1>>, <<-1>>, <<2>>, <<-2>>, <<4>>, <<-3>>, <<1>>, <<5>>}
Twos == {<<0, 1, 0>>, <<0, -2, 0>>, <<1, 3, 1>>, <<0, 1, 2>>, <<-1, 4, 3>>, <<2, 1, 2>>, <<-2, 1, -1>>, <<0, 3, 1>>}
\* a domain for each back-end: what it promises to factorise
DFor(b, nb) == [i \in 1..nb |-> CASE b = 1 -> RandomElement(Ones) [] b = 3 -> RandomElement({<<1>>, <<2>>, <<3>>, <<4>>})
                                [] OTHER -> IF RandomElement(1..2) = 1 THEN RandomElement(Ones) ELSE RandomElement(Twos)]
Have == {s \in Slots : obj[s].b # 0}
Free == {s \in Slots : obj[s].b \in {1, 3, 4}}
NewO == \E s \in {RInt(Slots)}, b \in {RInt({1, 1, 2, 3, 4, 4})}, np \in {RInt(1..2)}, nd \in {RInt(0..2)} : \E p \in {RSeq(np, 1..3)}, q \in {RSeq(nd, 1..3)} : ZStep(<<"new", s, b, p, q>>, 0)
\* factorise with an object whose size is free
FacO == IF Free = {} THEN NewO ELSE \E s \in {RInt(Free)} : \E nb \in {RInt(Sizes)} : \E k \in {RInt(0..(5 + nb \div 4))}, sc \in {RInt({0, 0, 0, 1, -3, 40, -40, 90, -90})} : \E D \in {DFor(obj[s].b, nb)} :
          \E raw \in {ROps(Size(D), IF Size(D) < 2 THEN 0 ELSE k, FALSE)} : ZStep(<<"fac", s, D, MkOps(Size(D), raw, obj[s].b = 1), sc>>, 0)
\* exactly singular: some zero rows, mixed in by exchanges only (nothing touches them)
SingO == LET B == {s \in Slots : obj[s].b = 4} IN IF B = {} THEN NewO ELSE
         \E s \in {RInt(B)} : \E nb \in {RInt(Sizes)}, sc \in {RInt({0, 3, -50})} : \E D0 \in {DFor(RInt({1, 4}), nb)}, z \in {RInt(1..nb)} : \E D \in {[D0 EXCEPT ![z] = RandomElement({<<0>>, <<1, 1, 1>>, <<-1, 1, -1>>})]} :
           \E raw \in {ROps(Size(D), IF Size(D) < 2 THEN 0 ELSE 3, FALSE)} : ZStep(<<"fac", s, D, SelectSeq(MkOps(Size(D), raw, FALSE), LAMBDA o : o[1] = 1), sc>>, <<FALSE, <<Size(D) - 1, 0, 1>>, TRUE, 0>>)
KktO == IF Have = {} THEN NewO ELSE \E s \in {RInt(Have)} : \E q \in {obj[s]} : \E n \in {IF q.b = 2 THEN q.np ELSE RInt(Sizes)}, m \in {IF q.b = 2 THEN q.nd ELSE RInt(0..3)}, k \in {RInt(0..4)}, sc \in {RInt({0, 0, 2, -60, 60})}, sg \in {RInt({1, 1, -1})} :
          \E D \in {DFor(3, n)}, raw \in {ROps(n, IF n < 2 THEN 0 ELSE k, TRUE)}, E \in {RSeq(m, {1, 2, 4, 3})}, C \in {[i \in 1..m |-> RSeq(n, {-2, -1, 0, 0, 1, 3})]} :
            ZStep(<<"kkt", s, D, MkOps(n, raw, TRUE), E, C, sg, sc>>, 0)
SolveO == LET Z == {s \in Slots : obj[s].ok} IN IF Z = {} THEN FacO ELSE \E s \in {RInt(Z)}, h \in {RInt(0..2)}, c \in {RInt(1..3)}, w \in {RInt(0..4)} : ZStep(<<"solve", s, h, c, w>>, 0)
CopyO == IF Have = {} THEN NewO ELSE \E s \in {RInt(Have)}, d \in {RInt(Slots)} : IF obj[d].b # 0 /\ RInt(1..2) = 1 THEN ZStep(<<"asg", d, s>>, 0) ELSE ZStep(<<"copy", d, s>>, 0)
MatO == \E nb \in {RInt(1..3)} : \E D \in {DFor(4, nb)}, k \in {RInt(0..4)} : \E raw \in {ROps(Size(D), IF Size(D) < 2 THEN 0 ELSE k, FALSE)} : ZStep(<<"mat", D, MkOps(Size(D), raw, FALSE)>>, 0)
CplxO == \E o \in {RInt({"cplx", "float"})}, nb \in {RInt(Sizes)} : \E D \in {DFor(4, nb)}, k \in {RInt(0..5)}, h \in {RInt(0..2)}, w \in {RInt(0..4)} : \E raw \in {ROps(Size(D), IF Size(D) < 2 THEN 0 ELSE k, FALSE)} :
         ZStep(<<o, D, MkOps(Size(D), raw, FALSE), h, w>>, 0)
TupleO == \E n \in {RInt(0..6)} : \E t \in {RSeq(n, {-1, 0, 1, 1, -1})}, z \in {RInt(1..4)} : ZStep(<<"tuple", IF z = 1 /\ n > 0 THEN [t EXCEPT ![n] = RandomElement({2, -2, -2147483647, 5})] ELSE t>>, 0)
NewBadO == ZStep(<<"newbad">>, 0)
Choose(w) == CASE w = "new" -> NewO [] w = "fac" -> FacO [] w = "sing" -> SingO [] w = "kkt" -> KktO [] w = "solve" -> SolveO [] w = "copy" -> CopyO
               [] w = "mat" -> MatO [] w = "cplx" -> CplxO [] w = "tuple" -> TupleO [] OTHER -> NewBadO
ZNext == IF Have = {} THEN NewO ELSE \E i \in {RInt(1..Len(Weights))} : Choose(Weights[i])
(* ---- design: the claimed inertia is the true one ---- *)
InertiaLaw == \A n \in 1..2 : \A D \in [1..n -> {<<1>>, <<-2>>, <<0>>, <<0, 1, 0>>, <<1, 1, 1>>, <<1, 3, 1>>, <<2, 1, 2>>, <<-2, 1, -1>>, <<0, 0, 0>>}] :
   LET z == Size(D) IN \A o \in ({0} \X (1..z) \X (1..z) \X {-1, 2}) \cup ({1} \X (1..z) \X (1..z)) : o[2] # o[3] => Eigen(Build(D, <<o>>)) = Inertia(D)
KktLaw == \A n \in 1..2, m \in 0..2 : \A D \in [1..n -> {<<1>>, <<3>>}], E \in [1..m -> {1, 2}], C \in [1..m -> [1..n -> {-1, 0, 2}]], sg \in {1, -1} :
   Eigen(Kkt(D, IF n = 2 THEN <<<<0, 2, 1, 2>>>> ELSE <<>>, E, C, sg)) = KktInertia(D, E, sg)
=============================================================================
