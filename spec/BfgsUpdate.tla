----------------------------- MODULE BfgsUpdate -----------------------------
(* Quasi-Newton strategies (BFGSStrategy, inverse and direct form).            *)
(* Points and gradients are integers; the matrix owned by the caller is        *)
(* M / 2^e.  The curvatures met are powers of two, so that the textbook        *)
(* update is exact:                                                             *)
(*    H+ = (I - s y'/s'y) H (I - y s'/s'y) + s s'/s'y    (inverse form)         *)
(* and with s and y exchanged for the direct form.  NAN and PINF mark           *)
(* non-finite coordinates.                                                      *)
EXTENDS VUtil
CONSTANTS Slots
VARIABLES slots, last
NAN == 7777
PINF == 8888
Bad(v) == \E i \in 1..Len(v) : Abs(v[i]) \in {NAN, PINF}
None == [k |-> "none"]
Init == slots = [s \in Slots |-> None] /\ last = <<>>

Log2(k) == CHOOSE j \in 0..12 : Pow2(j) = k
RECURSIVE Norm(_, _)
Norm(m0, e) == LET m == TLCEval(m0) IN IF m = 0 THEN <<0, 0>> ELSE IF e > 0 /\ m % 2 = 0 THEN Norm(m \div 2, e - 1) ELSE <<m, e>>
RECURSIVE Reduce(_, _)
Reduce(M, e) == IF e > 0 /\ \A i \in 1..Len(M) : \A j \in 1..Len(M) : M[i][j] % 2 = 0
                THEN Reduce(ForceM([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> M[i][j] \div 2]]), e - 1) ELSE <<M, e>>
NormM(M, e) == ForceM([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> Norm(M[i][j], e)]])
MaxM(M) == IF M = <<>> THEN 0 ELSE MaxSeq0([i \in 1..Len(M) |-> Normi(M[i])])

Diff(a, b) == IF Bad(a) \/ Bad(b) THEN ForceV([i \in 1..Len(a) |-> NAN]) ELSE VSub(a, b)
\* the update of M / 2^e with the pair (p, q): p p' enters the matrix, p'q = 2^k
W(p, q) == LET d == Dot(p, q) IN [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> (IF i = j THEN d ELSE 0) - p[i] * q[j]]]
NewM(M, e, p, q) == LET n == Len(p) d == Dot(p, q) k == Log2(d) w == ForceM(W(p, q))
                        A == TLCEval(MatMul(TLCEval(MatMul(w, M, n)), TLCEval(Transp(w, n)), n))
                    IN Reduce(ForceM([i \in 1..n |-> [j \in 1..n |-> A[i][j] + p[i] * p[j] * d * Pow2(e)]]), e + 2 * k)
P(sl, s, y) == IF sl.t = 0 THEN s ELSE y
Q(sl, s, y) == IF sl.t = 0 THEN y ELSE s
\* can the exact update be followed with 32-bit integers?
Fits(sl, s, y) == LET n == Len(s) d == Dot(s, y) w == TLCEval(MaxM(W(P(sl, s, y), Q(sl, s, y)))) IN
  /\ w <= 60 /\ sl.e <= 12 /\ (n = 0 \/ MaxM(sl.M) <= 500000000 \div (n * n * w * w + 1)) /\ 50 * d * Pow2(sl.e) <= 500000000
PosPow(s, y) == ~Bad(s) /\ ~Bad(y) /\ Dot(s, y) \in {Pow2(j) : j \in 0..5}

View(sl, thrown) == <<thrown, sl.valid, sl.init, sl.psd, NormM(sl.M, sl.e)>>
Put(op, s, sl, thrown) == \E v \in {sl} : slots' = [slots EXCEPT ![s] = v] /\ last' = <<op, View(v, thrown)>>
Make(op) == \* <<"mk", s, type, n, valid>>
  LET n == op[4] IN Put(op, op[2], [k |-> "s", t |-> op[3], n |-> n, valid |-> op[5] = 1, init |-> FALSE, psd |-> op[5] = 1, xp |-> Zeros(n), gp |-> Zeros(n), M |-> Ident(n), e |-> 0], "none")
SetH(op) == LET sl == slots[op[2]] IN Put(op, op[2], [sl EXCEPT !.M = ForceM(op[3]), !.e = 0], "none")
Initialise(op) == LET sl == slots[op[2]] IN
  IF ~sl.valid THEN Put(op, op[2], sl, "runtime_error") ELSE Put(op, op[2], [sl EXCEPT !.init = TRUE, !.xp = ForceV(op[3]), !.gp = ForceV(op[4])], "none")
Updated(sl, x, g) ==
  LET s == Diff(x, sl.xp) y == Diff(g, sl.gp) nx == [sl EXCEPT !.xp = ForceV(x), !.gp = ForceV(g)] IN
  IF Bad(s) \/ Bad(y) \/ Dot(s, y) <= 0 THEN [nx EXCEPT !.psd = FALSE]
  ELSE LET r == TLCEval(NewM(sl.M, sl.e, P(sl, s, y), Q(sl, s, y))) IN [nx EXCEPT !.psd = TRUE, !.M = r[1], !.e = r[2]]
Update(op) == LET sl == slots[op[2]] IN
  IF ~sl.init THEN (IF ~sl.valid THEN Put(op, op[2], sl, "runtime_error") ELSE Put(op, op[2], [sl EXCEPT !.init = TRUE, !.xp = ForceV(op[3]), !.gp = ForceV(op[4])], "none"))
  ELSE Put(op, op[2], Updated(sl, op[3], op[4]), "none")
\* copies and moves transfer the memory; the copy is independent of the original
Copy(op) == LET sl == slots[op[3]] d == slots[op[2]] IN Put(op, op[2], sl, "none")

Step(op) == CASE op[1] = "mk" -> Make(op) [] op[1] = "H" -> SetH(op) [] op[1] = "init" -> Initialise(op) [] op[1] = "upd" -> Update(op) [] op[1] = "copy" -> Copy(op)

(* ---- laws ---- *)
Upd == last # <<>> /\ last[1][1] = "upd"
Sl == slots[last[1][2]]
Symmetric == \A s \in Slots : slots[s].k = "none" \/ \A i \in 1..slots[s].n : \A j \in 1..slots[s].n : slots[s].M[i][j] = slots[s].M[j][i]
Det2(M) == M[1][1] * M[2][2] - M[1][2] * M[2][1]
Definite == \A s \in Slots : slots[s].k = "none" \/ CASE slots[s].n = 1 -> slots[s].M[1][1] > 0 [] slots[s].n = 2 -> slots[s].M[1][1] > 0 /\ Det2(slots[s].M) > 0 [] OTHER -> TRUE
=============================================================================
