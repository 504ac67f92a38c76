--------------------------- MODULE BfgsUpdateGen ---------------------------
EXTENDS BfgsUpdate, Json
CONSTANTS GenLen, MaxDim
VARIABLE h
R(seq) == seq[RandomElement(1..Len(seq))]
RV(n, lo, hi) == TLCEval([i \in 1..n |-> RandomElement(lo..hi)])
BadV(v) == IF v = <<>> THEN v ELSE LET i == RandomElement(1..Len(v)) IN [v EXCEPT ![i] = R(<<NAN, PINF, -PINF>>)]
Small(n) == [1..n -> (IF n >= 4 THEN -1..1 ELSE IF n = 3 THEN -2..2 ELSE -4..4)]
SetupOp(z) == \E s \in {RandomElement(Slots)}, t \in {RandomElement(0..1)}, n \in {RandomElement(0..MaxDim)}, v \in {R(<<1, 1, 1, 1, 1, 0>>)} : Step(<<"mk", s, t, n, v>>)
Full == {s \in Slots : slots[s].k # "none"}
\* symmetric positive definite integer matrix: diagonally dominant
Spd(n) == LET z == ForceM([i \in 1..n |-> [j \in 1..n |-> RandomElement(-1..1)]]) IN
          ForceM([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN RandomElement(3..5) ELSE IF i < j THEN z[i][j] ELSE z[j][i]]])
Pt(v) == IF v = <<>> \/ ~Bad(v) THEN v ELSE [i \in 1..Len(v) |-> IF Abs(v[i]) \in {NAN, PINF} THEN 0 ELSE v[i]]
Upd1(s) == LET sl == slots[s] n == sl.n IN
  IF ~sl.init \/ Bad(sl.xp) \/ Bad(sl.gp) THEN \E x \in {RV(n, -5, 5)}, g \in {RV(n, -5, 5)} : Step(<<"upd", s, x, g>>)
  ELSE \E d \in {RandomElement(Small(n))}, w \in {RandomElement(1..10)} :
       \E Y \in {IF w <= 7 THEN {y \in Small(n) : PosPow(d, y) /\ Fits(sl, d, y)} ELSE {y \in Small(n) : Dot(d, y) <= 0}} :
         IF Y = {} THEN (IF RandomElement(1..2) = 1 /\ n > 0 THEN \E M \in {Spd(n)} : Step(<<"H", s, M>>) ELSE Step(<<"upd", s, sl.xp, sl.gp>>))
         ELSE \E y \in {RandomElement(Y)} : \E x \in {VAdd(sl.xp, d)}, g \in {VAdd(sl.gp, y)} :
              IF Normi(x) > 300 \/ Normi(g) > 300 THEN \E x2 \in {RV(n, -5, 5)}, g2 \in {RV(n, -5, 5)} : Step(<<"init", s, x2, g2>>)
              ELSE \E f \in {RandomElement(1..14)} : CASE f = 1 -> \E b \in {BadV(x)} : Step(<<"upd", s, b, g>>) [] f = 2 -> \E b \in {BadV(g)} : Step(<<"upd", s, x, b>>) [] OTHER -> Step(<<"upd", s, x, g>>)
One(w) == IF Full = {} \/ w = 1 THEN SetupOp(0)
  ELSE \E s \in {RandomElement(Full)} :
   CASE w = 2 -> \E M \in {Spd(slots[s].n)} : Step(<<"H", s, M>>)
     [] w = 3 -> \E x \in {RV(slots[s].n, -5, 5)}, g \in {RV(slots[s].n, -5, 5)} : Step(<<"init", s, x, g>>)
     [] w = 4 -> \E d \in {RandomElement(Slots)} : Step(<<"copy", d, s>>)
     [] OTHER -> Upd1(s)
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ slots' = [s \in Slots |-> None] /\ last' = <<>>
         ELSE \E w \in {RandomElement(1..24)} : One(w) /\ h' = Append(h, last'[1])
=============================================================================
