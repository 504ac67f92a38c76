---------------------------- MODULE CostAlgebra ----------------------------
(* Algebra of cost functions.  Objects live on a heap and are shared through  *)
(* pointers: a pointer slot names an object; a sum is a list of (object,      *)
(* weight) terms.  Weights in units of 1/2 compose to units of 1/64; results  *)
(* are in units of 1/64.                                                      *)
EXTENDS VUtil
CONSTANTS Slots, Rand, Weights, Coord, MaxHeap, LeafIds, MaxTerms
VARIABLES heap,      \* sequence of objects
          ptr,       \* slot -> index in heap, 0 = null
          last
vars == <<heap, ptr, last>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S

(* ---- leaf k on R^2:  k + k x1 - x2 + k x1^2 x2 ---- *)
LVal(k, x) == k + k * x[1] - x[2] + k * x[1] * x[1] * x[2]
LGrad(k, x) == <<k + 2 * k * x[1] * x[2], k * x[1] * x[1] - 1>>
LHess(k, x) == <<<<2 * k * x[2], 2 * k * x[1]>>, <<2 * k * x[1], 0>>>>

(* ---- meaning of an object: a finite map leaf -> weight (unit 1/64) ---- *)
WU == 64
RECURSIVE Flat(_, _)
\* weight of every leaf kind; terms is a sequence of <<id, w>> with w in units of 1/64
Flat(hp, id) ==
  LET o == hp[id] IN
  IF o.t = "leaf" THEN [k \in LeafIds |-> IF k = o.k THEN WU ELSE 0]
  ELSE LET parts == [i \in 1..Len(o.c) |-> Flat(hp, o.c[i][1])] IN
       [k \in LeafIds |-> Sum([i \in 1..Len(o.c) |-> (o.c[i][2] * parts[i][k]) \div WU])]
LeafSeq == SetToSeq(LeafIds)
Val(hp, id, x) == LET f == Flat(hp, id) IN Sum([i \in 1..Len(LeafSeq) |-> f[LeafSeq[i]] * LVal(LeafSeq[i], x)])
Grad(hp, id, x) == LET f == Flat(hp, id) IN
   [a \in 1..2 |-> Sum([i \in 1..Len(LeafSeq) |-> f[LeafSeq[i]] * LGrad(LeafSeq[i], x)[a]])]
Hess(hp, id, x) == LET f == Flat(hp, id) IN
   [a \in 1..2 |-> [b \in 1..2 |-> Sum([i \in 1..Len(LeafSeq) |-> f[LeafSeq[i]] * LHess(LeafSeq[i], x)[a][b]])]]
RECURSIVE Reach(_, _), Depth(_, _), Odd(_, _)
Reach(hp, id) == {id} \cup (IF hp[id].t = "leaf" THEN {} ELSE UNION {Reach(hp, hp[id].c[i][1]) : i \in 1..Len(hp[id].c)})
Depth(hp, id) == IF hp[id].t = "leaf" THEN 0 ELSE 1 + MaxSeq0([i \in 1..Len(hp[id].c) |-> Depth(hp, hp[id].c[i][1])])
\* finest power of two in the leaf weights reachable: every weight multiple of WU / 2^Odd
Odd(hp, id) == IF hp[id].t = "leaf" THEN 0
               ELSE MaxSeq0([i \in 1..Len(hp[id].c) |-> Odd(hp, hp[id].c[i][1]) +
                     (LET w == hp[id].c[i][2] IN IF w % 64 = 0 THEN 0 ELSE IF w % 32 = 0 THEN 1 ELSE IF w % 16 = 0 THEN 2 ELSE IF w % 8 = 0 THEN 3 ELSE 9)])
Size(hp, id) == LET f == Flat(hp, id) IN Sum([i \in 1..Len(LeafSeq) |-> Abs(f[LeafSeq[i]])])
OK(hp) ==
          /\ Len(hp) <= MaxHeap
          /\ \A i \in 1..Len(hp) : (hp[i].t = "sum" => Len(hp[i].c) <= MaxTerms) /\ Depth(hp, i) <= 4
          /\ \A i \in 1..Len(hp) : Odd(hp, i) <= 4 /\ Size(hp, i) <= 64 * 200

IsSum(s) == ptr[s] # 0 /\ heap[ptr[s]].t = "sum"
Has(s) == ptr[s] # 0
NewSum(c) == [t |-> "sum", c |-> c]
C(s) == heap[ptr[s]].c
W(w) == w * 32                        \* weights given in units of 1/2
ScaleC(c, w) == [i \in 1..Len(c) |-> <<c[i][1], (c[i][2] * w) \div 2>>]
Put(s, o) == <<Append(heap, o), [ptr EXCEPT ![s] = Len(heap) + 1]>>
Mod(s, c) == <<[heap EXCEPT ![ptr[s]].c = c], ptr>>
NoCycle(a, b) == ptr[a] \notin Reach(heap, ptr[b])

\* steps:  op -> <<heap', ptr'>>
Enabled(op) ==
  CASE op[1] = "leaf" -> TRUE
    [] op[1] = "plus" -> Has(op[3]) /\ Has(op[4])                       \* d = a + b
    [] op[1] = "rplus" -> IsSum(op[3]) /\ Has(op[4]) /\ NoCycle(op[3], op[4])  \* d = move(copy of a) + b : extends a's object
    [] op[1] = "cplus" -> IsSum(op[3]) /\ Has(op[4])                    \* d = a->clone() + b
    [] op[1] = "smul" -> Has(op[4])                                     \* d = w * a
    [] op[1] = "cmul" -> IsSum(op[3])                                   \* d = *a * w  (or w * *a)
    [] op[1] = "neg" -> IsSum(op[3])
    [] op[1] = "iadd" -> IsSum(op[2]) /\ Has(op[3]) /\ NoCycle(op[2], op[3])
    [] op[1] = "iaddsum" -> IsSum(op[2]) /\ IsSum(op[3]) /\ (ptr[op[2]] = ptr[op[3]] \/ NoCycle(op[2], op[3])) /\ ptr[op[2]] # ptr[op[3]]
    [] op[1] = "imul" -> IsSum(op[2])
    [] op[1] = "addc" -> IsSum(op[2]) /\ Has(op[3]) /\ NoCycle(op[2], op[3])
    [] op[1] = "list" -> \A i \in 1..Len(op[3]) : Has(op[3][i])
    [] op[1] \in {"clone"} -> IsSum(op[3])
    [] op[1] = "alias" -> Has(op[3])
    [] op[1] = "q" -> Has(op[2])
Eff(op) ==
  CASE op[1] = "leaf" -> Put(op[2], [t |-> "leaf", k |-> op[3]])
    [] op[1] = "plus" -> Put(op[2], NewSum(<<<<ptr[op[3]], WU>>, <<ptr[op[4]], WU>>>>))
    [] op[1] = "rplus" -> <<[heap EXCEPT ![ptr[op[3]]].c = Append(@, <<ptr[op[4]], WU>>)], [ptr EXCEPT ![op[2]] = ptr[op[3]]]>>
    [] op[1] = "cplus" -> Put(op[2], NewSum(Append(C(op[3]), <<ptr[op[4]], WU>>)))
    [] op[1] = "smul" -> Put(op[2], NewSum(<<<<ptr[op[4]], W(op[3])>>>>))
    [] op[1] = "cmul" -> Put(op[2], NewSum(ScaleC(C(op[3]), op[4])))
    [] op[1] = "neg" -> Put(op[2], NewSum(ScaleC(C(op[3]), -2)))
    [] op[1] = "iadd" -> Mod(op[2], Append(C(op[2]), <<ptr[op[3]], WU>>))
    [] op[1] = "iaddsum" -> Mod(op[2], C(op[2]) \o C(op[3]))
    [] op[1] = "imul" -> Mod(op[2], ScaleC(C(op[2]), op[3]))
    [] op[1] = "addc" -> Mod(op[2], Append(C(op[2]), <<ptr[op[3]], W(op[4])>>))
    [] op[1] = "list" -> Put(op[2], NewSum([i \in 1..Len(op[3]) |-> <<ptr[op[3][i]], W(op[4][i])>>]))
    [] op[1] = "clone" -> Put(op[2], NewSum(C(op[3])))
    [] op[1] = "alias" -> <<heap, [ptr EXCEPT ![op[2]] = ptr[op[3]]]>>
    [] op[1] = "q" -> <<heap, ptr>>
\* a query reports value, gradient, Hessian, number of terms and their weights;
\* TRUE: the C2-function interface of the object says the same
Query(s, x) == LET id == ptr[s] o == heap[id] IN
   <<Val(heap, id, x), Grad(heap, id, x), Hess(heap, id, x),
     IF o.t = "sum" THEN [i \in 1..Len(o.c) |-> o.c[i][2]] ELSE <<>>, TRUE>>
Result(op) == IF op[1] = "q" THEN Query(op[2], op[3]) ELSE <<"ok">>

Init == heap = <<>> /\ ptr = [s \in Slots |-> 0] /\ last = <<>>
Do(op) == /\ Enabled(op)
          /\ LET e == Eff(op) IN
             /\ op[1] # "q" => OK(e[1])
             /\ heap' = e[1] /\ ptr' = e[2]
          /\ last' = <<op, Result(op), heap, ptr>>

Leaf == \E s \in Pick(Slots), k \in Pick(LeafIds) : Do(<<"leaf", s, k>>)
Three == \E d \in Pick(Slots), a \in Pick(Slots), b \in Pick(Slots), o \in Pick({"plus", "rplus", "cplus"}) : Do(<<o, d, a, b>>)
Scal == \E d \in Pick(Slots), a \in Pick(Slots), w \in Pick(Weights), o \in Pick({"smul", "cmul", "neg", "clone", "alias"}), side \in Pick({0, 1}) :
          Do(CASE o = "smul" -> <<o, d, w, a>> [] o = "cmul" -> <<o, d, a, w, side>> [] OTHER -> <<o, d, a>>)
InPl == \E a \in Pick(Slots), b \in Pick(Slots), w \in Pick(Weights), o \in Pick({"iadd", "iaddsum", "imul", "addc"}) :
          Do(CASE o = "imul" -> <<o, a, w>> [] o = "addc" -> <<o, a, b, w>> [] OTHER -> <<o, a, b>>)
List == \E d \in Pick(Slots), n \in Pick(0..3) :
          \E p \in (IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Slots)])} ELSE [1..n -> Slots]) :
            \E w \in (IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Weights)])} ELSE [1..n -> Weights]) : Do(<<"list", d, p, w>>)
Build == Leaf \/ Three \/ Scal \/ InPl \/ List
Quer == \E s \in Pick(Slots) : \E x \in (IF Rand THEN {TLCEval([i \in 1..2 |-> RandomElement(Coord)])} ELSE [1..2 -> Coord]) : Do(<<"q", s, x>>)
Next == Build \/ Quer

(* ---- properties ---- *)
Isolated ==    \* operations returning a new sum leave the meaning of every existing object alone
  last # <<>> /\ last[1][1] \in {"plus", "cplus", "smul", "cmul", "neg", "clone", "list", "alias", "leaf"} =>
    \A i \in 1..Len(last[3]) : heap[i] = last[3][i]
InPlaceOnlyTarget ==
  last # <<>> /\ last[1][1] \in {"iadd", "iaddsum", "imul", "addc"} =>
    \A i \in 1..Len(last[3]) : last[4][last[1][2]] \notin Reach(last[3], i) => Flat(heap, i) = Flat(last[3], i)
Meaning ==     \* the meaning of each expression is the linear combination it denotes
  last # <<>> =>
    LET op == last[1] F(s) == Flat(last[3], last[4][s]) G(s) == Flat(heap, ptr[s]) IN
    CASE op[1] \in {"plus", "cplus", "rplus"} -> \A k \in LeafIds : G(op[2])[k] = F(op[3])[k] + F(op[4])[k]
      [] op[1] = "smul" -> \A k \in LeafIds : 2 * G(op[2])[k] = op[3] * F(op[4])[k]
      [] op[1] = "cmul" -> \A k \in LeafIds : 2 * G(op[2])[k] = op[4] * F(op[3])[k]
      [] op[1] = "neg" -> \A k \in LeafIds : G(op[2])[k] = -F(op[3])[k]
      [] op[1] \in {"iadd", "iaddsum"} -> \A k \in LeafIds : G(op[2])[k] = F(op[2])[k] + F(op[3])[k]
      [] op[1] = "imul" -> \A k \in LeafIds : 2 * G(op[2])[k] = op[3] * F(op[2])[k]
      [] op[1] \in {"clone", "alias"} -> G(op[2]) = F(op[3])
      [] OTHER -> TRUE
=============================================================================
