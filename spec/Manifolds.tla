------------------------------ MODULE Manifolds ------------------------------
(* Spaces: Euclidean spaces, user manifolds, tangent bundles and Cartesian    *)
(* products, as value objects built by a program of constructor calls.        *)
(* Inputs are integers; results are in units of 1/256.  Three user manifolds     *)
(* stress the composites: "par", the parabola {(t, t^2)} (nx=2, ndx=1), and   *)
(* "hei", the Heisenberg group (non-commutative, polynomial exp and log), *)
(* and "scl", a plane whose coordinates move twice as fast as the tangent.    *)
EXTENDS ManifoldOps
CONSTANTS Slots, Rand, MaxDim, MaxDepth, Coord, Args

VARIABLES slots, last
vars == <<slots, last>>
None == [k |-> "none"]
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

(* ---- steps ---- *)
Tree(st, s) == st[s]
\* factors contributed by an operand: "c" used as a product (flattened), "p" as one factor
Facs(m, mode) == IF mode = "c" THEN m.c ELSE <<m>>
ModeOK(m, mode) == m.k # "none" /\ (mode = "c" => m.k = "prod")
Enabled(st, op) ==
  CASE op[1] \in {"new"} -> TRUE
    [] op[1] = "tb" -> CanTB(st[op[3]]) /\ Depth(st[op[3]]) < MaxDepth
    [] op[1] = "list" -> \A i \in 1..Len(op[3]) : st[op[3][i]].k # "none" /\ Depth(st[op[3][i]]) < MaxDepth
    [] op[1] = "mul" -> /\ ModeOK(st[op[3]], op[4]) /\ ModeOK(st[op[5]], op[6])
                        /\ (op[4] = "p" => Depth(st[op[3]]) < MaxDepth) /\ (op[6] = "p" => Depth(st[op[5]]) < MaxDepth)
    [] op[1] = "add" -> /\ st[op[2]].k = "prod" /\ ModeOK(st[op[3]], op[4])
                        /\ (op[4] = "p" => Depth(st[op[3]]) < MaxDepth)
    [] op[1] = "copy" -> st[op[2]].k # "none"
    [] OTHER -> st[op[2]].k # "none"
Apply(st, op) ==
  CASE op[1] = "new" -> [st EXCEPT ![op[2]] = [k |-> op[3], n |-> op[4]]]
    [] op[1] = "tb" -> [st EXCEPT ![op[2]] = [k |-> "tb", b |-> st[op[3]]]]
    [] op[1] = "list" -> [st EXCEPT ![op[2]] = [k |-> "prod", c |-> [i \in 1..Len(op[3]) |-> st[op[3][i]]]]]
    [] op[1] = "mul" -> [st EXCEPT ![op[2]] = [k |-> "prod", c |-> Facs(st[op[3]], op[4]) \o Facs(st[op[5]], op[6])]]
    [] op[1] = "add" -> [st EXCEPT ![op[2]] = [k |-> "prod", c |-> @.c \o Facs(st[op[3]], op[4])]]
    [] op[1] = "copy" -> [st EXCEPT ![op[3]] = st[op[2]]]
    [] OTHER -> st
\* writing 100*i + j through the j-th entry of the i-th piece
Marks(sz) == Concat([i \in 1..Len(sz) |-> [j \in 1..sz[i] |-> 100 * i + j]])
Result(st, op) ==
  LET st2 == Apply(st, op) m == IF op[1] \in {"new", "tb", "list", "mul", "add", "copy"} THEN None ELSE st[op[2]] IN
  CASE op[1] \in {"new", "tb", "list"} -> <<Desc(st2[op[2]])>>
    [] op[1] = "mul" -> <<Desc(st2[op[2]]), IF op[3] = op[2] THEN <<>> ELSE Desc(st[op[3]]), IF op[5] = op[2] THEN <<>> ELSE Desc(st[op[5]])>>
    [] op[1] = "add" -> <<Desc(st2[op[2]]), Desc(st2[op[3]])>>
    [] op[1] = "copy" -> <<Desc(st2[op[3]]), Desc(st2[op[2]])>>
    [] op[1] = "dim" -> <<NX(m), NDX(m), NDX(m), NDX(m), IF m.k = "prod" THEN Len(m.c) ELSE -1>>  \* nx ndx, tangent space nx ndx, factors
    [] op[1] = "neutral" -> <<Neutral(m), Valid(m, Neutral(m))>>
    [] op[1] = "rand" -> <<NX(m), TRUE>>
    [] op[1] = "norm" -> <<Valid(m, S64(op[3]))>>
    [] op[1] = "int" -> <<Integ(m, S64(op[3]), S64(op[4])), TRUE>>
    [] op[1] = "diff" -> <<Diff(m, S64(op[3]), S64(op[4])), TRUE>>
    \* int(x, diff(x,y)), diff(x, int(x,v))
    [] op[1] = "rt" -> <<S64(op[4]), S64(op[5])>>
    [] op[1] = "Jint" -> <<Jint(m, S64(op[3]), S64(op[4]), op[5])>>
    [] op[1] = "Jdiff" -> <<Jdiff(m, S64(op[3]), S64(op[4]), op[5])>>
    [] op[1] = "interp" -> <<Interp(m, S64(op[3]), S64(op[4]), op[5])>>
    [] op[1] = "trans" -> <<Transp2(m, S64(op[3]), S64(op[4]), op[5], [i \in 1..Len(op[6]) |-> S64(op[6][i])])>>
    \* pieces (const), pieces (mutable), vector after writing through the pieces, merge of the original pieces
    [] op[1] = "split" -> LET sz == [i \in 1..Len(m.c) |-> NX(m.c[i])] IN
                          <<[i \in 1..Len(m.c) |-> XBlk(m, op[3], i)], Marks(sz), op[3], TRUE>>
    [] op[1] = "splitv" -> LET sz == [i \in 1..Len(m.c) |-> NDX(m.c[i])] IN
                          <<[i \in 1..Len(m.c) |-> VBlk(m, op[3], i)], Marks(sz), op[3], TRUE>>

Init == slots = [s \in Slots |-> None] /\ last = <<>>
Do(op) == /\ Enabled(slots, op)
          /\ slots' = Apply(slots, op)
          /\ last' = <<op, Result(slots, op), slots>>

(* ---- arguments ---- *)
RVec(n) == IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Coord)])} ELSE [1..n -> Coord]
RECURSIVE RPt(_, _)       \* a random point (valid unless bad)
RPt(m, bad) == CASE m.k = "prod" -> Concat([i \in 1..Len(m.c) |-> RPt(m.c[i], bad)])
                 [] m.k = "tb" -> RPt(m.b, bad) \o [i \in 1..NDX(m.b) |-> RandomElement(Coord)]
                 [] m.k = "par" -> LET t == RandomElement(Coord) b == RandomElement(0..2) IN <<t, t * t + (IF bad /\ b = 0 THEN 1 ELSE 0)>>
                 [] OTHER -> [i \in 1..NX(m) |-> RandomElement(Coord)]
RECURSIVE APts(_)         \* all points over Coord
APts(m) == CASE m.k = "par" -> {<<t, t * t>> : t \in Coord}
             [] m.k = "tb" -> {p \o v : p \in APts(m.b), v \in [1..NDX(m.b) -> Coord]}
             [] m.k = "prod" -> IF Len(m.c) = 0 THEN {<<>>}
                                ELSE {p \o q : p \in APts(m.c[1]), q \in APts([k |-> "prod", c |-> Tail(m.c)])}
             [] OTHER -> [1..NX(m) -> Coord]
Pts(m, bad) == IF Rand THEN {TLCEval(RPt(m, bad))} ELSE APts(m)

Leaf == \E s \in Pick(Slots), k \in Pick({"vs", "vs2", "par", "hei", "scl"}), n \in Pick(0..MaxDim) : Do(<<"new", s, k, n>>)
TBop == \E s \in Pick(Slots), a \in Pick(Slots) : Do(<<"tb", s, a>>)
ListOp == \E s \in Pick(Slots), n \in Pick(0..3) :
            \E p \in (IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Slots)])} ELSE [1..n -> Slots]) : Do(<<"list", s, p>>)
MulOp == \E s \in Pick(Slots), a \in Pick(Slots), b \in Pick(Slots), ma \in Pick({"p", "c"}), mb \in Pick({"p", "c"}) :
            Do(<<"mul", s, a, ma, b, mb>>)
AddOp == \E s \in Pick(Slots), b \in Pick(Slots), mb \in Pick({"p", "c"}) : Do(<<"add", s, b, mb>>)
CopyOp == \E a \in Pick(Slots), b \in Pick(Slots) : Do(<<"copy", a, b>>)
Build == Leaf \/ TBop \/ ListOp \/ MulOp \/ AddOp \/ CopyOp
Query == \E s \in Pick(Slots) : slots[s].k # "none" /\ NX(slots[s]) <= Max2(24, 3 * MaxDim) /\ LET m == slots[s] IN
   \E q \in Pick({"dim", "neutral", "rand", "norm", "int", "diff", "rt", "Jint", "Jdiff", "interp", "trans", "split", "splitv"}) :
     CASE q \in {"dim", "neutral", "rand"} -> Do(<<q, s>>)
       [] q = "norm" -> \E x \in Pts(m, TRUE) : Do(<<q, s, x>>)
       [] q = "int" -> \E x \in Pts(m, FALSE), v \in RVec(NDX(m)) : Do(<<q, s, x, v>>)
       [] q = "diff" -> \E x \in Pts(m, FALSE), y \in Pts(m, FALSE) : Do(<<q, s, x, y>>)
       [] q = "rt" -> \E x \in Pts(m, FALSE), y \in Pts(m, FALSE), v \in RVec(NDX(m)) : Do(<<q, s, x, y, v>>)
       [] q = "Jint" -> \E x \in Pts(m, FALSE), v \in RVec(NDX(m)), a \in Pick(Args) : Do(<<q, s, x, v, a>>)
       [] q = "Jdiff" -> \E x \in Pts(m, FALSE), y \in Pts(m, FALSE), a \in Pick(Args) : Do(<<q, s, x, y, a>>)
       [] q = "interp" -> \E x \in Pts(m, FALSE), y \in Pts(m, FALSE), u \in Pick({-3, 0, 1, 2, 3, 4, 6}) : Do(<<q, s, x, y, u>>)
       [] q = "trans" -> \E x \in Pts(m, FALSE), v \in RVec(NDX(m)), a \in Pick(Args) :
             \E J \in (IF Rand THEN {TLCEval([i \in 1..NDX(m) |-> [j \in 1..2 |-> RandomElement(Coord)]])} ELSE {[i \in 1..NDX(m) |-> <<i, 2>>]}) :
             Do(<<q, s, x, v, a, J>>)
       [] q = "split" -> m.k = "prod" /\ \E x \in Pts(m, FALSE) : Do(<<q, s, x>>)
       [] q = "splitv" -> m.k = "prod" /\ \E x \in RVec(NDX(m)) : Do(<<q, s, x>>)
Next == Build \/ Query
Spec == Init /\ [][Next]_vars

(* ---- properties of the calculus (checked exhaustively on small spaces) ---- *)
Is(q) == last # <<>> /\ last[1][1] = q
LM == last[3][last[1][2]]
RoundTrip == Is("rt") => LET m == LM x == S64(last[1][3]) y == S64(last[1][4]) v == S64(last[1][5]) IN
     /\ Integ(m, x, Diff(m, x, y)) = y
     /\ Diff(m, x, Integ(m, x, v)) = v
     /\ Valid(m, Integ(m, x, v))
InterpEnds == Is("interp") => LET m == LM x == S64(last[1][3]) y == S64(last[1][4]) IN
     /\ Interp(m, x, y, 0) = x /\ Interp(m, x, y, 4) = y
     \* affine along the geodesic: the difference from x is u * (y - x)
     /\ LET d == Diff(m, x, y) IN VScale(4, Diff(m, x, last[2][1])) = VScale(last[1][5], d)
\* exact central differences (all maps are polynomials of degree <= 2 along a direction)
ColOf(J, j) == [i \in 1..Len(J) |-> J[i][j]]
E(n, j) == [i \in 1..n |-> IF i = j THEN U ELSE 0]
JintIsDerivative == Is("Jint") => LET m == LM n == NDX(m) x == S64(last[1][3]) v == S64(last[1][4]) IN
     \A j \in 1..n :
       LET up == IF last[1][5] = 0 THEN Integ(m, Integ(m, x, E(n, j)), v) ELSE Integ(m, x, VAdd(v, E(n, j)))
           dn == IF last[1][5] = 0 THEN Integ(m, Integ(m, x, VScale(-1, E(n, j))), v) ELSE Integ(m, x, VSub(v, E(n, j)))
           c == Integ(m, x, v)
       IN VScale(2, ColOf(last[2][1], j)) = VSub(Diff(m, c, up), Diff(m, c, dn))
JdiffIsDerivative == Is("Jdiff") => LET m == LM n == NDX(m) x == S64(last[1][3]) y == S64(last[1][4]) IN
     \A j \in 1..n :
       LET p(s) == IF last[1][5] = 0 THEN Diff(m, Integ(m, x, VScale(s, E(n, j))), y) ELSE Diff(m, x, Integ(m, y, VScale(s, E(n, j))))
       IN VScale(2, ColOf(last[2][1], j)) = VSub(p(1), p(-1))
TransportIsJacobian == Is("trans") => LET m == LM n == NDX(m) IN
     n > 0 => MMul(Jint(m, S64(last[1][3]), S64(last[1][4]), last[1][5]), [i \in 1..n |-> S64(last[1][6][i])], 2) = last[2][1]
NeutralValid == Is("neutral") => last[2][2]
=============================================================================
