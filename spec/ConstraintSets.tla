--------------------------- MODULE ConstraintSets ---------------------------
(* Proximal sets: equality {0}, negative orthant, box, l1 penalty and their  *)
(* products, as value-semantics objects carrying a proximal parameter mu.    *)
(* Unit of all reals: 1/4.  mu = 0 stands for "never set" (the default).     *)
EXTENDS VUtil

CONSTANTS Slots,       \* object names
          Vals,        \* component values used by queries
          Mus,         \* proximal parameters (in units of 1/4)
          Boxes,       \* set of <<lo, hi>> sequences (pairs per component)
          JCols,       \* numbers of columns of Jacobians
          Rand,        \* TRUE: pick arguments at random (scenario generation)
          MaxNest,     \* nesting depth of products
          Sizes        \* dimensions of queries on leaf sets

VARIABLES slots,       \* slot -> set object or None
          last         \* the last step and the result it must have
vars == <<slots, last>>

None == [k |-> "none"]
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

(* ---- semantics ---- *)
RECURSIVE SetMu(_, _)
SetMu(r, m) ==
  IF r.k = "prod" THEN [r EXCEPT !.mu = m, !.comps = [i \in 1..Len(@) |-> SetMu(@[i], m)]]
  ELSE [r EXCEPT !.mu = m]

Prox1(r, i, x) ==
  CASE r.k = "eq"  -> 0
    [] r.k = "neg" -> Min2(x, 0)
    [] r.k = "box" -> Max2(Min2(x, r.hi[i]), r.lo[i])
    [] r.k = "l1"  -> Sgn(x) * Max2(Abs(x) - r.mu, 0)
Act1(r, i, x) ==
  CASE r.k = "eq"  -> TRUE
    [] r.k = "neg" -> x > 0
    [] r.k = "box" -> x > r.hi[i] \/ x < r.lo[i]
    [] r.k = "l1"  -> Abs(x) <= r.mu

RECURSIVE Prox(_, _), Active(_, _), Penalty(_, _)
Prox(r, z) ==
  IF r.k = "prod"
  THEN LET off == Offsets(r.sizes) IN
       Concat([i \in 1..Len(r.comps) |-> Prox(r.comps[i], Block(z, off[i], r.sizes[i]))])
  ELSE [i \in 1..Len(z) |-> Prox1(r, i, z[i])]
Active(r, z) ==
  IF r.k = "prod"
  THEN LET off == Offsets(r.sizes) IN
       Concat([i \in 1..Len(r.comps) |-> Active(r.comps[i], Block(z, off[i], r.sizes[i]))])
  ELSE [i \in 1..Len(z) |-> Act1(r, i, z[i])]
\* value of the nonsmooth function at a point of its domain
Penalty(r, p) ==
  IF r.k = "prod"
  THEN LET off == Offsets(r.sizes) IN
       Sum([i \in 1..Len(r.comps) |-> Penalty(r.comps[i], Block(p, off[i], r.sizes[i]))])
  ELSE IF r.k = "l1" THEN Sum([i \in 1..Len(p) |-> Abs(p[i])]) ELSE 0

NCone(r, z) == VSub(z, Prox(r, z))
\* the Jacobian operators zero the active resp. the inactive rows
ZeroRows(J, mask) == [i \in 1..Len(J) |-> IF mask[i] THEN Zeros(Len(J[i])) ELSE J[i]]
ProjJac(r, z, J) == ZeroRows(J, Active(r, z))
NConeJac(r, z, J) == ZeroRows(J, [i \in 1..Len(z) |-> ~Active(r, z)[i]])
\* Moreau envelope in units of 1/64 (needs mu in {1,2,4,8})
Envelope(r, z) ==
  LET p == Prox(r, z) n == NCone(r, z)
  IN 16 * Penalty(r, p) + (8 * Sum([i \in 1..Len(n) |-> n[i] * n[i]])) \div r.mu

RECURSIVE Dim(_), Depth(_)
\* dimension an object is restricted to; -1 if any
Dim(r) == IF r.k = "prod" THEN Sum(r.sizes) ELSE IF r.k = "box" THEN Len(r.lo) ELSE -1
Depth(r) == IF r.k = "prod" THEN 1 + MaxSeq0([i \in 1..Len(r.comps) |-> Depth(r.comps[i])]) ELSE 0

\* Result of a query: everything the object says about z
Query(r, z, J) ==
  LET p == Prox(r, z) IN
  << p, NCone(r, z), Active(r, z), ProjJac(r, z, J), NConeJac(r, z, J),
     Penalty(r, p), Prox(r, p),
     IF r.mu > 0 THEN Envelope(r, z) ELSE -1,
     r.mu, TRUE >>                                  \* TRUE: nothing outside its block was written

(* ---- steps ---- *)
\* <<"new", slot, kind, lo, hi>>  <<"prod", slot, parts, sizes>>  <<"copy", from, to>>
\* <<"mu", slot, m>>  <<"q", slot, z, J>>
Enabled(st, op) ==
  CASE op[1] = "new"  -> TRUE
    [] op[1] = "prod" -> \A i \in 1..Len(op[3]) : st[op[3][i]].k # "none"
    [] op[1] = "copy" -> st[op[2]].k # "none"
    [] op[1] = "mu"   -> st[op[2]].k # "none"
    [] op[1] = "q"    -> st[op[2]].k # "none" /\ Dim(st[op[2]]) \in {-1, Len(op[3])}
Apply(st, op) ==
  CASE op[1] = "new"  -> [st EXCEPT ![op[2]] = [k |-> op[3], mu |-> 0, lo |-> op[4], hi |-> op[5]]]
    [] op[1] = "prod" -> [st EXCEPT ![op[2]] = [k |-> "prod", mu |-> 0,
                              comps |-> [i \in 1..Len(op[3]) |-> st[op[3][i]]], sizes |-> op[4]]]
    [] op[1] = "copy" -> [st EXCEPT ![op[3]] = st[op[2]]]
    [] op[1] = "mu"   -> [st EXCEPT ![op[2]] = SetMu(@, op[3])]
    [] op[1] = "q"    -> st
Result(st, op) ==
  IF op[1] = "q" THEN Query(st[op[2]], op[3], op[4]) ELSE <<"ok">>

Init == slots = [s \in Slots |-> None] /\ last = <<>>
Do(op) == /\ Enabled(slots, op)
          /\ slots' = Apply(slots, op)
          /\ last' = <<op, Result(slots, op), IF op[1] = "q" THEN slots[op[2]] ELSE None>>

RVec(n) == IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Vals)])} ELSE [1..n -> Vals]
RJac(n) == IF Rand THEN LET c == RandomElement(JCols) IN {TLCEval([i \in 1..n |-> [j \in 1..c |-> RandomElement(1..9)]])}
           ELSE {[i \in 1..n |-> [j \in 1..c |-> i + j]] : c \in JCols}

NewLeaf == \E s \in Pick(Slots), k \in Pick({"eq", "neg", "l1"}) : Do(<<"new", s, k, <<>>, <<>>>>)
NewBox == \E s \in Pick(Slots), b \in Pick(Boxes) :
             Do(<<"new", s, "box", [i \in 1..Len(b) |-> b[i][1]], [i \in 1..Len(b) |-> b[i][2]]>>)
NewProd == \E s \in Pick(Slots), n \in Pick(0..3) :
             \E parts \in (IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Slots)])} ELSE [1..n -> Slots]) :
               /\ \A i \in 1..n : slots[parts[i]].k # "none" /\ Depth(slots[parts[i]]) < MaxNest
               /\ \E szs \in (IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Sizes)])} ELSE [1..n -> Sizes]) :
                    LET sz == [i \in 1..n |-> IF Dim(slots[parts[i]]) >= 0 THEN Dim(slots[parts[i]]) ELSE szs[i]] IN
                    Do(<<"prod", s, parts, sz>>)
CopyOp == \E a \in Pick(Slots), b \in Pick(Slots) : Do(<<"copy", a, b>>)
SetMuOp == \E a \in Pick(Slots), m \in Pick(Mus) : Do(<<"mu", a, m>>)
QueryOp == \E a \in Pick(Slots) : slots[a].k # "none" /\
             \E n \in (IF Dim(slots[a]) >= 0 THEN {Dim(slots[a])} ELSE Pick(Sizes)) :
               \E z \in RVec(n), J \in RJac(n) : Do(<<"q", a, z, J>>)
Next == NewLeaf \/ NewBox \/ NewProd \/ CopyOp \/ SetMuOp \/ QueryOp
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
IsQ == last # <<>> /\ last[1][1] = "q"
\* the projection minimises  penalty(y) + |y - z|^2 / (2 mu)  over the set (indicator sets: mu irrelevant)
RECURSIVE Leaves(_, _)
Leaves(r, z) == IF r.k # "prod" THEN <<<<r, z>>>>
                ELSE LET off == Offsets(r.sizes) IN
                     Concat([i \in 1..Len(r.comps) |-> Leaves(r.comps[i], Block(z, off[i], r.sizes[i]))])
InSet(r, i, y) == CASE r.k = "eq" -> y = 0 [] r.k = "neg" -> y <= 0
                    [] r.k = "box" -> r.lo[i] <= y /\ y <= r.hi[i] [] r.k = "l1" -> TRUE
Pen1(r, y) == IF r.k = "l1" THEN Abs(y) ELSE 0
ProxIsMinimiser ==
  IsQ => LET lv == Leaves(last[3], last[1][3]) IN
         \A q \in 1..Len(lv) : LET r == lv[q][1] z == lv[q][2] IN
           \A i \in 1..Len(z) : LET p == Prox1(r, i, z[i]) IN
             /\ InSet(r, i, p)
             /\ \A y \in -14..14 : InSet(r, i, y) =>
                  2 * r.mu * Pen1(r, p) + (p - z[i]) * (p - z[i]) <= 2 * r.mu * Pen1(r, y) + (y - z[i]) * (y - z[i])
Decomposition == IsQ => VAdd(last[2][1], last[2][2]) = last[1][3]
RECURSIVE HasL1(_)
HasL1(r) == r.k = "l1" \/ (r.k = "prod" /\ \E i \in 1..Len(r.comps) : HasL1(r.comps[i]))
Idempotent == IsQ => (HasL1(last[3]) \/ last[2][7] = last[2][1])
\* the two Jacobians partition the rows
JacobiansPartition == IsQ => MAdd(last[2][4], last[2][5]) = last[1][4]
RECURSIVE MuUniform(_)
MuUniform(r) == r.k # "prod" \/ r.mu = 0 \/ \A i \in 1..Len(r.comps) : r.comps[i].mu = r.mu /\ MuUniform(r.comps[i])
MuPropagated == \A s \in Slots : slots[s].k # "none" => MuUniform(slots[s])
=============================================================================
