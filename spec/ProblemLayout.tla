---------------------------- MODULE ProblemLayout ----------------------------
(* A problem is an ordered list of constraint blocks; a workspace partitions   *)
(* its stacked storage accordingly.  Buffers are modelled explicitly: every    *)
(* evaluation writes its own fields and blocks and nothing else.               *)
EXTENDS VUtil
CONSTANTS Slots, Rand, Coord, Nrs, Ids, SetKinds, MaxC

VARIABLES prob,    \* slot -> problem
          wk,      \* slot -> workspace (buffers) or NoWs
          last
vars == <<prob, wk, last>>
Pick(S) == IF Rand THEN {RandomElement(S)} ELSE S
NoP == [ok |-> FALSE, sp |-> "v2", cost |-> 1, cs |-> <<>>]
NoW == [ok |-> FALSE]

(* ---- user functions: constraint id k of dimension nr, cost id k ---- *)
X1(x) == x[1]
X2(x) == x[Len(x)]
FV(k, i, x) == i * k + i * X1(x) * X1(x) - k * X2(x) + k * X1(x) * X2(x)
FJ(k, i, x) == <<2 * i * X1(x) + k * X2(x), k * X1(x) - k>>
FH(k, i) == <<<<2 * i, k>>, <<k, 0>>>>
CV(k, x) == k + k * X1(x) * X1(x) * X2(x) - X2(x)
CG(k, x) == <<2 * k * X1(x) * X2(x), k * X1(x) * X1(x) - 1>>
CH(k, x) == <<<<2 * k * X2(x), 2 * k * X1(x)>>, <<2 * k * X1(x), 0>>>>

(* ---- layout ---- *)
Dims(p) == [i \in 1..Len(p.cs) |-> p.cs[i].nr]
Total(p) == Sum(Dims(p))
Idx(p) == Offsets(Dims(p))
Layout(p) == <<Len(p.cs), Total(p), Dims(p), Idx(p), [i \in 1..Len(p.cs) |-> p.cs[i].id]>>
Mark == 777
\* buffers of a fresh workspace are zero
Fresh(p) == [ok |-> TRUE, lay |-> Layout(p), obj |-> -1, val |-> Zeros(Total(p)), jac |-> ZeroM(Total(p), 2), hes |-> ZeroM(2 * Len(p.cs), 2),
             g |-> <<0, 0>>, H |-> ZeroM(2, 2), pdal |-> Zeros(Total(p))]
\* what a look at the workspace shows: buffers, then the views (offset, size per block) of every stacked array
Views(p) == [i \in 1..Len(p.cs) |-> <<Idx(p)[i], Dims(p)[i]>>]
HViews(p) == [i \in 1..Len(p.cs) |-> <<2 * (i - 1), 2>>]
NVec == 10      \* stacked vectors with per-constraint views in a workspace
NMat == 2       \* stacked row blocks (Jacobians, projected Jacobians)
Sight(w) == <<w.val, w.jac, w.hes, w.g, w.H>>

Enabled(op) ==
  CASE op[1] = "newp" -> Len(op[5]) <= MaxC
    [] op[1] = "add" -> prob[op[2]].ok /\ Len(prob[op[2]].cs) < MaxC
    [] op[1] = "copyp" -> prob[op[2]].ok
    [] op[1] \in {"layout", "seg"} -> prob[op[2]].ok /\ (op[1] = "seg" => Len(op[3]) = Total(prob[op[2]]))
    [] op[1] = "ws" -> prob[op[2]].ok
    [] op[1] \in {"views", "fill", "res"} -> wk[op[2]].ok /\ wk[op[2]].lay = Layout(prob[op[2]])
    [] op[1] \in {"eval", "deriv", "hess"} -> wk[op[2]].ok /\ wk[op[2]].lay = Layout(prob[op[2]])
    [] op[1] = "lams" -> wk[op[2]].ok /\ wk[op[2]].lay = Layout(prob[op[2]]) /\ Len(op[3]) = Total(prob[op[2]])
ApplyP(op) ==
  CASE op[1] = "newp" -> [prob EXCEPT ![op[2]] = [ok |-> TRUE, sp |-> op[3], cost |-> op[4],
                              cs |-> [i \in 1..Len(op[5]) |-> [nr |-> op[5][i][1], id |-> op[5][i][2], set |-> op[5][i][3]]]]]
    [] op[1] = "add" -> [prob EXCEPT ![op[2]].cs = Append(@, [nr |-> op[3][1], id |-> op[3][2], set |-> op[3][3]])]
    [] op[1] = "copyp" -> [prob EXCEPT ![op[3]] = prob[op[2]]]
    [] OTHER -> prob
\* row-wise lookup: which block does stacked row r belong to
BlockOf(p, r) == CHOOSE i \in 1..Len(p.cs) : Idx(p)[i] < r /\ r <= Idx(p)[i] + Dims(p)[i]
RowIn(p, r) == r - Idx(p)[BlockOf(p, r)]
UseVHP(c, all) == all \/ c.set = "exact"
WVal(p, x) == [r \in 1..Total(p) |-> FV(p.cs[BlockOf(p, r)].id, RowIn(p, r), x)]
WJac(p, x) == [r \in 1..Total(p) |-> FJ(p.cs[BlockOf(p, r)].id, RowIn(p, r), x)]
WHes(p, w, x, all) ==
   Concat([i \in 1..Len(p.cs) |-> IF UseVHP(p.cs[i], all)
      THEN FoldLeft(LAMBDA M, r : MAdd(M, MScale(w.pdal[Idx(p)[i] + r], FH(p.cs[i].id, r))), ZeroM(2, 2), [r \in 1..p.cs[i].nr |-> r])
      ELSE SubSeq(w.hes, 2 * i - 1, 2 * i)])
ApplyW(op) == LET s == op[2] p == prob[s] w == wk[s] IN
  CASE op[1] \in {"newp"} -> [wk EXCEPT ![s] = NoW]
    [] op[1] = "copyp" -> [wk EXCEPT ![op[3]] = NoW]
    [] op[1] = "ws" -> [wk EXCEPT ![s] = Fresh(p)]
    [] op[1] = "fill" -> [wk EXCEPT ![s] = [@ EXCEPT !.obj = Mark, !.val = [i \in 1..Total(p) |-> Mark], !.jac = [i \in 1..Total(p) |-> <<Mark, Mark>>],
                              !.hes = [i \in 1..2 * Len(p.cs) |-> <<Mark, Mark>>], !.g = <<Mark, Mark>>, !.H = <<<<Mark, Mark>>, <<Mark, Mark>>>>]]
    [] op[1] = "lams" -> [wk EXCEPT ![s].pdal = op[3]]
    [] op[1] = "eval" -> [wk EXCEPT ![s] = [@ EXCEPT !.obj = CV(p.cost, op[3]), !.val = WVal(p, op[3])]]
    [] op[1] = "deriv" -> [wk EXCEPT ![s] = [@ EXCEPT !.g = CG(p.cost, op[3]), !.jac = WJac(p, op[3])]]
    [] op[1] = "hess" -> [wk EXCEPT ![s] = [@ EXCEPT !.H = CH(p.cost, op[3]), !.hes = WHes(p, w, op[3], op[4] = 1)]]
    [] OTHER -> wk
Result(op) == LET s == op[2] p == ApplyP(op)[s] IN
  CASE op[1] \in {"newp", "add", "layout"} -> Layout(p)
    [] op[1] = "copyp" -> Layout(prob[s])
    \* segments of a stacked vector, and the vector after writing block number * 100 + position through them
    [] op[1] = "seg" -> <<[i \in 1..Len(p.cs) |-> Block(op[3], Idx(p)[i], Dims(p)[i])],
                          Concat([i \in 1..Len(p.cs) |-> [j \in 1..Dims(p)[i] |-> 100 * i + j]])>>
    \* shapes, all buffers zero, results shapes
    [] op[1] = "ws" -> <<Total(p), 2 + Total(p), TRUE, TRUE>>
    [] op[1] = "views" -> <<[k \in 1..NVec |-> Views(p)], [k \in 1..NMat |-> Views(p)], HViews(p)>>
    [] op[1] = "res" -> <<Views(p), Dims(p), TRUE>>
    [] op[1] \in {"fill", "lams"} -> <<"ok">>
    [] op[1] = "eval" -> LET w == ApplyW(op)[s] IN <<w.obj>> \o Sight(w)
    [] op[1] \in {"deriv", "hess"} -> LET w == ApplyW(op)[s] IN Sight(w)
Init == prob = [s \in Slots |-> NoP] /\ wk = [s \in Slots |-> NoW] /\ last = <<>>
Do(op) == Enabled(op) /\ prob' = ApplyP(op) /\ wk' = ApplyW(op) /\ last' = <<op, Result(op)>>

RC(zz) == <<RandomElement(Nrs), RandomElement(Ids), RandomElement(SetKinds)>>
CSet == Nrs \X Ids \X SetKinds
NewP == \E s \in Pick(Slots), sp \in Pick({"v2", "parv1"}), c \in Pick(Ids), n \in Pick(0..3) :
          \E cs \in (IF Rand THEN {TLCEval([i \in 1..n |-> RC(prob)])} ELSE [1..n -> CSet]) : Do(<<"newp", s, sp, c, cs>>)
Add == \E s \in Pick(Slots) : \E c \in (IF Rand THEN {TLCEval(RC(prob))} ELSE CSet) : Do(<<"add", s, c>>)
CopyP == \E a \in Pick(Slots), b \in Pick(Slots) : a # b /\ Do(<<"copyp", a, b>>)
Ws == \E s \in Pick(Slots) : Do(<<"ws", s>>)
XPts(s) == IF prob[s].sp = "v2" THEN (IF Rand THEN {TLCEval(<<RandomElement(Coord), RandomElement(Coord)>>)} ELSE {<<a, b>> : a \in Coord, b \in Coord})
           ELSE (IF Rand THEN {TLCEval(LET t == RandomElement(Coord) IN <<t, t * t, RandomElement(Coord)>>)} ELSE {<<a, a * a, b>> : a \in Coord, b \in Coord})
RV(n) == IF Rand THEN {TLCEval([i \in 1..n |-> RandomElement(Coord)])} ELSE [1..n -> Coord]
Build == NewP \/ Add \/ Ws \/ Ws
Quer == \E s \in Pick(Slots) : prob[s].ok /\
   \E q \in Pick({"layout", "seg", "views", "fill", "res", "lams", "eval", "deriv", "hess"}) :
     CASE q \in {"layout", "views", "fill", "res"} -> Do(<<q, s>>)
       [] q \in {"seg", "lams"} -> \E v \in RV(Total(prob[s])) : Do(<<q, s, v>>)
       [] q \in {"eval", "deriv"} -> \E x \in XPts(s) : Do(<<q, s, x>>)
       [] q = "hess" -> \E x \in XPts(s), a \in Pick({0, 1}) : Do(<<q, s, x, a>>)
Next == Build \/ CopyP \/ Quer

(* ---- properties ---- *)
Partition == \A s \in Slots : prob[s].ok =>
   LET p == prob[s] IN
   /\ \A r \in 1..Total(p) : Cardinality({i \in 1..Len(p.cs) : Idx(p)[i] < r /\ r <= Idx(p)[i] + Dims(p)[i]}) = 1
   /\ \A i \in 1..Len(p.cs) : Idx(p)[i] = Sum(SubSeq(Dims(p), 1, i - 1)) /\ Idx(p)[i] + Dims(p)[i] <= Total(p)
OwnFields ==   \* an evaluation leaves the fields of the others alone (stated on the model's step)
  [][last' # last /\ last'[1][1] = "eval" => \A s \in Slots : wk[s].ok /\ wk'[s].ok => wk'[s].jac = wk[s].jac /\ wk'[s].hes = wk[s].hes /\ wk'[s].g = wk[s].g /\ wk'[s].H = wk[s].H]_vars
=============================================================================
